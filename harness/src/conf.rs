//! S05: configuration files, in process and with the real programs.
use crate::ensure;
use crate::run::*;
use crate::s03::{program_path, Program};
use crate::serv::own_ip;
use crate::util::*;
use crate::wire::*;
use crate::zone::{self, gen_query, gen_zset, judge_answer, render};
use ariadne_dns::nameserver::conf as nconf;
use ariadne_dns::resolver::conf as rconf;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{self, Read, Write};
use std::net::*;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- JSON

#[derive(Clone, Debug)]
pub enum J {
    Raw(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

fn raw(x: impl ToString) -> J {
    J::Raw(x.to_string())
}

fn js(x: impl ToString) -> J {
    J::Str(x.to_string())
}

fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    /// The value at a path of keys and indices.
    fn at(&mut self, path: &[String]) -> Option<&mut J> {
        let Some(k) = path.first() else { return Some(self) };
        match self {
            J::Obj(v) => v.iter_mut().find(|x| x.0 == *k)?.1.at(&path[1..]),
            J::Arr(v) => v.get_mut(k.parse::<usize>().ok()?)?.at(&path[1..]),
            _ => None,
        }
    }
    fn remove(&mut self, path: &[String]) {
        let (k, parent) = path.split_last().unwrap();
        if let Some(J::Obj(v)) = self.at(parent) {
            v.retain(|x| x.0 != *k);
        }
    }
    fn write(&self, r: &mut Rng, fancy: bool, s: &mut String) {
        let ws = |r: &mut Rng, s: &mut String| {
            if fancy {
                for _ in 0..r.below(3) {
                    s.push(*r.pick(&[' ', '\n', '\t', '\r', ' ']));
                }
            }
        };
        ws(r, s);
        match self {
            J::Raw(x) => s.push_str(x),
            J::Str(x) => string(x, r, fancy, s),
            J::Arr(v) => {
                s.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    x.write(r, fancy, s);
                }
                s.push(']');
            }
            J::Obj(v) => {
                s.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    ws(r, s);
                    string(k, r, fancy, s);
                    ws(r, s);
                    s.push(':');
                    x.write(r, fancy, s);
                }
                s.push('}');
            }
        }
        ws(r, s);
    }
    fn text(&self, r: &mut Rng, fancy: bool) -> String {
        let mut s = String::new();
        self.write(r, fancy, &mut s);
        s
    }
    /// Keys in any order, and unknown ones.
    fn shuffle(&mut self, r: &mut Rng, extra: bool) {
        match self {
            J::Obj(v) => {
                for i in (1..v.len()).rev() {
                    v.swap(i, r.below(i + 1));
                }
                for x in v.iter_mut() {
                    x.1.shuffle(r, extra);
                }
                if extra && r.one_in(4) {
                    v.push((r.pick(&["comment", "timeout", "Address", "x"]).to_string(), r.pick(&[raw("null"), raw(0), js("?"), J::Arr(vec![])]).clone()));
                }
            }
            J::Arr(v) => v.iter_mut().for_each(|x| x.shuffle(r, extra)),
            _ => {}
        }
    }
}

fn string(x: &str, r: &mut Rng, fancy: bool, s: &mut String) {
    s.push('"');
    for c in x.chars() {
        match c {
            '"' | '\\' => {
                s.push('\\');
                s.push(c);
            }
            c if (c as u32) < 32 || (fancy && r.one_in(25) && (c as u32) < 0x10000) => s.push_str(&format!("\\u{:04x}", c as u32)),
            c => s.push(c),
        }
    }
    s.push('"');
}

// ---------------------------------------------------------------- values

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Level,
    Addr,
    Port,
    Secs,
    Count,
    Ttl,
    Zone,
    File,
    Bool,
}

const LEVELS: [&str; 5] = ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"];

#[derive(Clone, Debug)]
pub struct Srv {
    udp: SocketAddr,
    tcp: SocketAddr,
    uw: u64,
    ut: usize,
    tr: u64,
    tw: u64,
    tt: usize,
}

fn srv_json(s: &Srv) -> Vec<(&'static str, J)> {
    vec![
        ("udp_server", obj(vec![("address", js(s.udp.ip())), ("port", raw(s.udp.port())), ("write_timeout", raw(s.uw)), ("threads", raw(s.ut))])),
        (
            "tcp_server",
            obj(vec![("address", js(s.tcp.ip())), ("port", raw(s.tcp.port())), ("read_timeout", raw(s.tr)), ("write_timeout", raw(s.tw)), ("threads", raw(s.tt))]),
        ),
    ]
}

const SRV_FIELDS: &[(&str, Kind)] = &[
    ("log_level", Kind::Level),
    ("udp_server.address", Kind::Addr),
    ("udp_server.port", Kind::Port),
    ("udp_server.write_timeout", Kind::Secs),
    ("udp_server.threads", Kind::Count),
    ("tcp_server.address", Kind::Addr),
    ("tcp_server.port", Kind::Port),
    ("tcp_server.read_timeout", Kind::Secs),
    ("tcp_server.write_timeout", Kind::Secs),
    ("tcp_server.threads", Kind::Count),
];

const RES_FIELDS: &[(&str, Kind)] = &[
    ("resolver.max_ns_queried", Kind::Count),
    ("resolver.max_ns_retries", Kind::Count),
    ("resolver.max_cname_redir", Kind::Count),
    ("resolver.read_timeout", Kind::Secs),
    ("resolver.write_timeout", Kind::Secs),
    ("resolver.cache_conf.clean_period", Kind::Secs),
    ("resolver.cache_conf.entries_cleaned", Kind::Secs),
    ("resolver.trace_conf.silent", Kind::Bool),
    ("resolver.trace_conf.verbose", Kind::Bool),
    ("resolver.trace_conf.color", Kind::Bool),
];

const ZONE_FIELDS: &[(&str, Kind)] = &[("zone.starting_ttl", Kind::Ttl), ("zone.zone", Kind::Zone), ("zone.file", Kind::File)];
const SUB_FIELDS: &[(&str, Kind)] = &[("starting_ttl", Kind::Ttl), ("min_ttl", Kind::Ttl), ("zone", Kind::Zone), ("file", Kind::File)];
const OBJECTS: &[&str] = &["udp_server", "tcp_server"];

fn any_secs(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => r.range(1, 10) as u64,
        1 => 1 << r.below(64),
        2 => *r.pick(&[u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, u32::MAX as u64 + 1]),
        _ => r.u64().max(1),
    }
}

fn any_ip(r: &mut Rng) -> IpAddr {
    match r.below(6) {
        0 => IpAddr::V4(Ipv4Addr::from(r.u64() as u32)),
        1 => IpAddr::V6(Ipv6Addr::from((r.u64() as u128) << 64 | r.u64() as u128)),
        2 => "::".parse().unwrap(),
        3 => "::1".parse().unwrap(),
        4 => "0.0.0.0".parse().unwrap(),
        _ => "127.0.0.1".parse().unwrap(),
    }
}

fn any_file(r: &mut Rng) -> String {
    (*r.pick(&["zones/main", "/etc/x y", "", "../up", "C:\\zones", "ünï cödé", "a\"b", "conf/../x.\u{1F600}"])).to_string()
}

fn bad_zone(r: &mut Rng) -> String {
    loop {
        let s = match r.below(9) {
            0 => String::new(),
            1 => "..".into(),
            2 => format!("{}.com.", "a".repeat(r.range(64, 80))),
            3 => "a..com.".into(),
            4 => ".com.".into(),
            5 => format!("{}", "abcdefg.".repeat(33)),
            6 => "example.com".into(),
            7 => "exam ple.com.".into(),
            _ => "com..".into(),
        };
        if !text_ok(&s) {
            return s;
        }
    }
}

/// A value no field of this kind may have.
fn bad_value(r: &mut Rng, k: Kind) -> (J, String) {
    let wrong: &[&str] = match k {
        Kind::Bool => &["null", "0", "1", "\"true\"", "[]", "{}", "TRUE"],
        Kind::Level | Kind::Addr | Kind::Zone | Kind::File => &["null", "0", "true", "[]", "{}", "[\"a.\"]", "1.5"],
        _ => &["null", "true", "\"5\"", "[]", "{}", "[5]", "1.5", "-1", "-9223372036854775808", "18446744073709551616", "1e30"],
    };
    if r.one_in(3) {
        let x = *r.pick(wrong);
        return (raw(x), format!("wrong type {}", x));
    }
    let x = match k {
        Kind::Level => js(r.pick(&["", "LOUD", "OFF", "INFO ", "5", "ALL", "INFORMATION"])),
        Kind::Addr => js(r.pick(&["", "localhost", "127.0.0.1:53", "256.1.1.1", "1.2.3", "1.2.3.4.5", " 127.0.0.1", "127.0.0.1 ", "[::1]", "::g", "1:2:3:4:5:6:7:8:9", "0x7f.0.0.1", "*", ":::", "127.0.0.1/8"])),
        Kind::Port => raw(r.pick(&["65536", "-1", "65536000", "4294967296"])),
        Kind::Secs | Kind::Count => raw("0"),
        Kind::Ttl => raw(r.pick(&["4294967296", "-1", "18446744073709551615"])),
        Kind::Zone => js(bad_zone(r)),
        Kind::File => raw("7"),
        Kind::Bool => js("yes"),
    };
    let d = format!("{:?}", x);
    (x, d)
}

/// A configuration and the paths of its fields.
fn any_conf(r: &mut Rng, resolver: bool) -> (J, Vec<(Vec<String>, Kind)>, Vec<String>) {
    let s = Srv {
        udp: SocketAddr::new(any_ip(r), *r.pick(&[0, 1, 53, 4000, 65535, 12345])),
        tcp: SocketAddr::new(any_ip(r), r.u16()),
        uw: any_secs(r),
        ut: any_secs(r) as usize,
        tr: any_secs(r),
        tw: any_secs(r),
        tt: any_secs(r) as usize,
    };
    let mut v = vec![("log_level", js(r.pick(&LEVELS)))];
    v.extend(srv_json(&s));
    let mut fields: Vec<(String, Kind)> = SRV_FIELDS.iter().map(|f| (f.0.to_string(), f.1)).collect();
    let mut objects: Vec<String> = OBJECTS.iter().map(|s| s.to_string()).collect();
    if resolver {
        v.push((
            "resolver",
            obj(vec![
                ("max_ns_queried", raw(any_secs(r))),
                ("max_ns_retries", raw(any_secs(r))),
                ("max_cname_redir", raw(any_secs(r))),
                ("read_timeout", raw(any_secs(r))),
                ("write_timeout", raw(any_secs(r))),
                ("cache_conf", obj(vec![("clean_period", raw(any_secs(r))), ("entries_cleaned", raw(any_secs(r)))])),
                ("trace_conf", obj(vec![("silent", raw(r.bool())), ("verbose", raw(r.bool())), ("color", raw(r.bool()))])),
            ]),
        ));
        fields.extend(RES_FIELDS.iter().map(|f| (f.0.to_string(), f.1)));
        objects.extend(["resolver", "resolver.cache_conf", "resolver.trace_conf"].map(String::from));
    } else {
        let n = r.below(4);
        let subs: Vec<J> = (0..n)
            .map(|_| obj(vec![("starting_ttl", raw(r.u64() as u32)), ("min_ttl", raw(*r.pick(&[0, 1, 60, u32::MAX]))), ("zone", js(text(&gen_name(r)))), ("file", js(any_file(r)))]))
            .collect();
        v.push(("zone", obj(vec![("starting_ttl", raw(*r.pick(&[0, 1, 1000, u32::MAX]))), ("zone", js(text(&gen_name(r)))), ("file", js(any_file(r))), ("sub_zones", J::Arr(subs))])));
        fields.extend(ZONE_FIELDS.iter().map(|f| (f.0.to_string(), f.1)));
        for i in 0..n {
            fields.extend(SUB_FIELDS.iter().map(|f| (format!("zone.sub_zones.{}.{}", i, f.0), f.1)));
        }
        objects.extend(["zone", "zone.sub_zones"].map(String::from));
        for i in 0..n {
            objects.push(format!("zone.sub_zones.{}", i));
        }
    }
    let split = |s: &String| s.split('.').map(String::from).collect::<Vec<_>>();
    (obj(v), fields.iter().map(|f| (split(&f.0), f.1)).collect(), objects)
}

/// Every value of the configuration as text, by path.
fn flat(j: &J, path: &str, out: &mut BTreeMap<String, String>) {
    match j {
        J::Raw(x) => {
            out.insert(path.into(), x.clone());
        }
        J::Str(x) => {
            out.insert(path.into(), x.clone());
        }
        J::Arr(v) => {
            out.insert(format!("{}.len", path), v.len().to_string());
            v.iter().enumerate().for_each(|(i, x)| flat(x, &format!("{}.{}", path, i), out));
        }
        J::Obj(v) => v.iter().for_each(|(k, x)| flat(x, &if path.is_empty() { k.clone() } else { format!("{}.{}", path, k) }, out)),
    }
}

fn seen_n(c: &nconf::Conf) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let mut p = |k: &str, v: String| {
        m.insert(k.to_string(), v);
    };
    p("log_level", c.log_level.to_string());
    p("udp_server.address", c.udp_server.address.clone());
    p("udp_server.port", c.udp_server.port.to_string());
    p("udp_server.write_timeout", c.udp_server.write_timeout.to_string());
    p("udp_server.threads", c.udp_server.threads.to_string());
    p("tcp_server.address", c.tcp_server.address.clone());
    p("tcp_server.port", c.tcp_server.port.to_string());
    p("tcp_server.read_timeout", c.tcp_server.read_timeout.to_string());
    p("tcp_server.write_timeout", c.tcp_server.write_timeout.to_string());
    p("tcp_server.threads", c.tcp_server.threads.to_string());
    p("zone.starting_ttl", c.zone.starting_ttl.to_string());
    p("zone.zone", c.zone.zone.clone());
    p("zone.file", c.zone.file.clone());
    p("zone.sub_zones.len", c.zone.sub_zones.len().to_string());
    for (i, s) in c.zone.sub_zones.iter().enumerate() {
        p(&format!("zone.sub_zones.{}.starting_ttl", i), s.starting_ttl.to_string());
        p(&format!("zone.sub_zones.{}.min_ttl", i), s.min_ttl.to_string());
        p(&format!("zone.sub_zones.{}.zone", i), s.zone.clone());
        p(&format!("zone.sub_zones.{}.file", i), s.file.clone());
    }
    m
}

fn seen_r(c: &rconf::Conf) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let mut p = |k: &str, v: String| {
        m.insert(k.to_string(), v);
    };
    p("log_level", c.log_level.to_string());
    p("udp_server.address", c.udp_server.address.clone());
    p("udp_server.port", c.udp_server.port.to_string());
    p("udp_server.write_timeout", c.udp_server.write_timeout.to_string());
    p("udp_server.threads", c.udp_server.threads.to_string());
    p("tcp_server.address", c.tcp_server.address.clone());
    p("tcp_server.port", c.tcp_server.port.to_string());
    p("tcp_server.read_timeout", c.tcp_server.read_timeout.to_string());
    p("tcp_server.write_timeout", c.tcp_server.write_timeout.to_string());
    p("tcp_server.threads", c.tcp_server.threads.to_string());
    let r = &c.resolver;
    p("resolver.max_ns_queried", r.max_ns_queried.to_string());
    p("resolver.max_ns_retries", r.max_ns_retries.to_string());
    p("resolver.max_cname_redir", r.max_cname_redir.to_string());
    p("resolver.read_timeout", r.read_timeout.to_string());
    p("resolver.write_timeout", r.write_timeout.to_string());
    p("resolver.cache_conf.clean_period", r.cache_conf.clean_period.to_string());
    p("resolver.cache_conf.entries_cleaned", r.cache_conf.entries_cleaned.to_string());
    p("resolver.trace_conf.silent", r.trace_conf.silent.to_string());
    p("resolver.trace_conf.verbose", r.trace_conf.verbose.to_string());
    p("resolver.trace_conf.color", r.trace_conf.color.to_string());
    m
}

fn read_conf(resolver: bool, path: &str) -> Result<BTreeMap<String, String>, String> {
    if resolver {
        rconf::Conf::from_file(path).map(|c| seen_r(&c))
    } else {
        nconf::Conf::from_file(path).map(|c| seen_n(&c))
    }
}

/// Breaks one thing of a configuration; what, and its text.
fn break_conf(r: &mut Rng, resolver: bool, mut j: J, fields: &[(Vec<String>, Kind)], objects: &[String]) -> (String, Vec<u8>) {
    let _ = resolver;
    let split = |s: &String| s.split('.').map(String::from).collect::<Vec<_>>();
    let fancy = r.bool();
    match r.below(10) {
        0 | 1 => {
            let (p, k) = r.pick(fields).clone();
            j.remove(&p);
            (format!("{} ({:?}) missing", p.join("."), k), j.text(r, fancy).into_bytes())
        }
        2 => {
            let p = split(r.pick(objects));
            if p.last().unwrap().parse::<usize>().is_ok() || r.bool() {
                let x = *r.pick(&["null", "5", "\"x\"", "true"]);
                *j.at(&p).unwrap() = raw(x);
                (format!("{} is {}", p.join("."), x), j.text(r, fancy).into_bytes())
            } else {
                j.remove(&p);
                (format!("{} missing", p.join(".")), j.text(r, fancy).into_bytes())
            }
        }
        3 => {
            let t = j.text(r, fancy);
            match r.below(7) {
                0 => {
                    let mut n = r.below(t.trim_end().len());
                    while !t.is_char_boundary(n) {
                        n -= 1;
                    }
                    ("cut short".into(), t.as_bytes()[..n].to_vec())
                }
                1 => ("text behind the end".into(), format!("{} x", t).into_bytes()),
                2 => ("a comment".into(), format!("// c\n{}", t).into_bytes()),
                3 => {
                    let p = t.rfind('}').unwrap();
                    ("a comma too much".into(), format!("{},{}", &t[..p], &t[p..]).into_bytes())
                }
                4 => {
                    let mut b = t.into_bytes();
                    let at = b.iter().position(|c| *c == b'"').unwrap() + 1;
                    b.insert(at, 0xff);
                    ("not UTF-8".into(), b)
                }
                5 => ("empty".into(), vec![]),
                _ => ("two documents".into(), format!("{}{}", t, t).into_bytes()),
            }
        }
        _ => {
            let (p, k) = r.pick(fields).clone();
            let (x, d) = bad_value(r, k);
            *j.at(&p).unwrap() = x;
            (format!("{} ({:?}) is {}", p.join("."), k, d), j.text(r, fancy).into_bytes())
        }
    }
}

fn files(c: &mut Case) -> Res {
    let r = &mut Rng::new(c.rng.u64());
    let path = format!("{}/conf-{}.json", c.dir, c.shard);
    for _ in 0..60 {
        let resolver = r.bool();
        let bin = if resolver { "resolver" } else { "nameserver" };
        let (mut j, fields, objects) = any_conf(r, resolver);
        if r.bool() {
            let mut want = BTreeMap::new();
            flat(&j, "", &mut want);
            let extra = r.one_in(3);
            j.shuffle(r, extra);
            // Sub zones keep their order, keys need not.
            let fancy = r.bool();
            let t = j.text(r, fancy);
            std::fs::write(&path, &t).unwrap();
            let got = guardv("panic on a configuration", || t.clone(), || read_conf(resolver, &path))?;
            match got {
                Err(e) => return bad("valid configuration refused", format!("{}: {}\n{}", bin, e, t)),
                Ok(got) => {
                    for (k, v) in &want {
                        match got.get(k) {
                            None => return inconclusive(format!("unknown field {}", k)),
                            Some(g) => ensure!(g == v, "value lost", "{}: {} is {:?} instead of {:?}\n{}", bin, k, g, v, t),
                        }
                    }
                }
            }
            c.count(&format!("{} files accepted", bin));
            c.distinct(fnv(t.as_bytes()));
        } else {
            let (what, bytes) = break_conf(r, resolver, j, &fields, &objects);
            std::fs::write(&path, &bytes).unwrap();
            let got = guardv("panic on a configuration", || format!("{}: {}", what, String::from_utf8_lossy(&bytes)), || read_conf(resolver, &path))?;
            ensure!(got.is_err(), "invalid configuration accepted", "{}: {}\n{}", bin, what, String::from_utf8_lossy(&bytes));
            c.count(&format!("{} files refused", bin));
            let field = what.split(" is ").next().unwrap().split(" missing").next().unwrap();
            let general: String = field.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
            c.count(&format!("refused: {}", general.split(' ').next().unwrap()));
            c.distinct(fnv(&bytes));
        }
    }
    let _ = std::fs::remove_file(&path);
    for p in ["/nowhere/at/all.json", c.dir] {
        for resolver in [true, false] {
            let got = guardv("panic on a configuration", || p.to_string(), || read_conf(resolver, p))?;
            ensure!(got.is_err(), "invalid configuration accepted", "{} read as a configuration", p);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- upstream

/// Stands in for all servers of the Internet.
struct Upstream {
    addr: SocketAddr,
    st: Arc<Mutex<UpSt>>,
    stop: Arc<AtomicBool>,
    threads: Vec<std::thread::JoinHandle<()>>,
}

#[derive(Default)]
struct UpSt {
    /// (when, name, over TCP)
    asked: Vec<(Instant, String, bool)>,
    held: Vec<(Vec<u8>, SocketAddr)>,
    open: bool,
}

fn reply(q: &[u8], over_tcp: bool) -> Option<(String, Vec<u8>)> {
    let d = decode_strict(q).ok()?.msg;
    let qu = d.q.first()?.clone();
    let name = text(&qu.name).to_lowercase();
    let first = name.split('.').next()?.to_string();
    let mut m = RMsg { h: RHdr { id: d.h.id, qr: true, aa: true, rd: d.h.rd, ..Default::default() }, q: vec![qu.clone()], ..Default::default() };
    let a = |n: &RName, x: u8| RRec { name: n.clone(), ttl: 3600, data: RData::A([10, 0, 0, x]) };
    if let Some((k, rest)) = first.strip_prefix('k').and_then(|s| s.split_once('-')) {
        let k: u32 = k.parse().ok()?;
        if k == 0 {
            m.sec[0].push(a(&qu.name, 1));
        } else {
            m.sec[0].push(RRec { name: qu.name.clone(), ttl: 3600, data: RData::Name(CNAME, labels(&format!("k{}-{}.ok.", k - 1, rest))) });
        }
    } else if first.starts_with("tc") && !over_tcp {
        m.h.tc = true;
    } else {
        m.sec[0].push(a(&qu.name, 7));
        m.sec[0].push(RRec { name: labels("junk.example."), ttl: 3600, data: RData::A([10, 99, 98, 97]) });
    }
    Some((name, encode(&m)))
}

impl Upstream {
    fn new(r: &mut Rng) -> io::Result<Upstream> {
        let ip = own_ip(9);
        for _ in 0..30 {
            let p = r.range(20_000, 32_000) as u16;
            let (Ok(u), Ok(t)) = (UdpSocket::bind((ip, p)), TcpListener::bind((ip, p))) else { continue };
            u.set_read_timeout(Some(Duration::from_millis(50)))?;
            t.set_nonblocking(true)?;
            let st = Arc::new(Mutex::new(UpSt::default()));
            let stop = Arc::new(AtomicBool::new(false));
            let (s1, stop1) = (st.clone(), stop.clone());
            let h1 = std::thread::spawn(move || {
                let mut b = [0; 2000];
                while !stop1.load(SeqCst) {
                    let Ok((n, from)) = u.recv_from(&mut b) else {
                        let mut s = s1.lock().unwrap();
                        if s.open {
                            for (b, to) in std::mem::take(&mut s.held) {
                                let _ = u.send_to(&b, to);
                            }
                        }
                        continue;
                    };
                    let Some((name, rep)) = reply(&b[..n], false) else { continue };
                    let mut s = s1.lock().unwrap();
                    s.asked.push((Instant::now(), name.clone(), false));
                    if name.starts_with("silent") {
                        continue;
                    }
                    if name.starts_with("gate") && !s.open {
                        s.held.push((rep, from));
                        continue;
                    }
                    let _ = u.send_to(&rep, from);
                }
            });
            let (s2, stop2) = (st.clone(), stop.clone());
            let h2 = std::thread::spawn(move || {
                while !stop2.load(SeqCst) {
                    let Ok((mut t, _)) = t.accept() else {
                        std::thread::sleep(Duration::from_millis(5));
                        continue;
                    };
                    let _ = t.set_nonblocking(false);
                    let _ = t.set_read_timeout(Some(Duration::from_secs(5)));
                    let mut l = [0; 2];
                    if t.read_exact(&mut l).is_err() {
                        continue;
                    }
                    let mut b = vec![0; u16::from_be_bytes(l) as usize];
                    if t.read_exact(&mut b).is_err() {
                        continue;
                    }
                    let Some((name, rep)) = reply(&b, true) else { continue };
                    s2.lock().unwrap().asked.push((Instant::now(), name, true));
                    let mut out = (rep.len() as u16).to_be_bytes().to_vec();
                    out.extend(rep);
                    let _ = t.write_all(&out);
                }
            });
            return Ok(Upstream { addr: SocketAddr::new(IpAddr::V4(ip), p), st, stop, threads: vec![h1, h2] });
        }
        Err(io::Error::new(io::ErrorKind::Other, "no port for the upstream"))
    }
}

impl Drop for Upstream {
    fn drop(&mut self) {
        self.stop.store(true, SeqCst);
        for t in self.threads.drain(..) {
            let _ = t.join();
        }
    }
}

// ---------------------------------------------------------------- programs

/// A running program under the shim.
struct Run {
    p: Program,
    dir: String,
    out: String,
    log: String,
}

impl Run {
    fn start(dir: &str, bin: &str, args: &[&str], up: Option<SocketAddr>) -> io::Result<Run> {
        let (out, log) = (format!("{}/out", dir), format!("{}/shim-log", dir));
        let _ = std::fs::remove_file(&log);
        let o = std::fs::File::create(&out)?;
        let e = o.try_clone()?;
        let shim = program_path("x").parent().unwrap().parent().unwrap().parent().unwrap().join("shim.so");
        let mut c = Command::new(program_path(bin));
        c.args(args).current_dir(dir).stdin(Stdio::null()).stdout(o).stderr(e);
        c.env("LD_PRELOAD", &shim).env("MON_LOG", &log).env("CLICOLOR_FORCE", "1").env_remove("NO_COLOR");
        if let Some(u) = up {
            c.env("MON_UP", u.to_string());
        }
        Ok(Run { p: Program(c.spawn()?), dir: dir.into(), out, log })
    }
    fn ended(&mut self) -> Option<std::process::ExitStatus> {
        self.p.0.try_wait().ok().flatten()
    }
    fn output(&self) -> String {
        String::from_utf8_lossy(&std::fs::read(&self.out).unwrap_or_default()).to_string()
    }
    /// What the shim recorded: (microseconds, words).
    fn events(&self) -> Vec<(u64, Vec<String>)> {
        let t = std::fs::read_to_string(&self.log).unwrap_or_default();
        t.lines()
            .filter_map(|l| {
                let mut w = l.split(' ');
                let t = w.next()?.parse().ok()?;
                Some((t, w.map(String::from).collect()))
            })
            .collect()
    }
    fn tasks(&self) -> usize {
        std::fs::read_dir(format!("/proc/{}/task", self.p.0.id())).map(|d| d.count()).unwrap_or(0)
    }
}

const LONG: Duration = Duration::from_secs(25);

fn query(name: &str, qtype: u16, id: u16) -> Vec<u8> {
    encode(&RMsg { h: RHdr { id, rd: true, ..Default::default() }, q: vec![RQ { name: labels(name), qtype }], ..Default::default() })
}

fn reach(a: SocketAddr) -> SocketAddr {
    match a.ip() {
        IpAddr::V4(i) if i.is_unspecified() => SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), a.port()),
        IpAddr::V6(i) if i.is_unspecified() => SocketAddr::new(IpAddr::V6(Ipv6Addr::LOCALHOST), a.port()),
        _ => a,
    }
}

fn udp_to(a: SocketAddr) -> io::Result<UdpSocket> {
    let a = reach(a);
    let s = UdpSocket::bind(if a.is_ipv4() { "0.0.0.0:0" } else { "[::]:0" })?;
    s.connect(a)?;
    Ok(s)
}

fn ask_udp(a: SocketAddr, q: &[u8], wait: Duration) -> io::Result<Vec<u8>> {
    let s = udp_to(a)?;
    s.set_read_timeout(Some(wait))?;
    s.send(q)?;
    let mut b = [0; 2000];
    loop {
        let n = s.recv(&mut b)?;
        if n >= 12 && b[..2] == q[..2] {
            return Ok(b[..n].to_vec());
        }
    }
}

fn ask_tcp(a: SocketAddr, q: &[u8], wait: Duration) -> io::Result<Vec<u8>> {
    let mut s = TcpStream::connect_timeout(&reach(a), wait)?;
    s.set_read_timeout(Some(wait))?;
    let mut b = (q.len() as u16).to_be_bytes().to_vec();
    b.extend(q);
    s.write_all(&b)?;
    let mut l = [0; 2];
    s.read_exact(&mut l)?;
    let mut b = vec![0; u16::from_be_bytes(l) as usize];
    s.read_exact(&mut b)?;
    Ok(b)
}

/// A port in this shard's own range, free everywhere.
fn port(r: &mut Rng, shard: u64) -> Option<u16> {
    for _ in 0..200 {
        let p = (12_000 + (shard % 32) * 600 + r.below(600) as u64) as u16;
        if UdpSocket::bind(("0.0.0.0", p)).is_ok() && TcpListener::bind(("0.0.0.0", p)).is_ok() {
            return Some(p);
        }
    }
    None
}

fn pick_srv(r: &mut Rng, shard: u64) -> Option<Srv> {
    let v6 = UdpSocket::bind("[::1]:0").is_ok();
    let ip = |r: &mut Rng| -> IpAddr {
        match r.below(if v6 { 6 } else { 4 }) {
            0 => IpAddr::V4(Ipv4Addr::UNSPECIFIED),
            4 => IpAddr::V6(Ipv6Addr::LOCALHOST),
            5 => IpAddr::V6(Ipv6Addr::UNSPECIFIED),
            k => IpAddr::V4(own_ip(10 + k as u8)),
        }
    };
    let u = ip(r);
    let t = if r.bool() { u } else { ip(r) };
    let p = port(r, shard)?;
    let q = if r.one_in(3) { p } else { port(r, shard)? };
    // All different, so that none can stand in for another.
    let mut pool: Vec<u64> = vec![3, 7, 13, 29, 61, 127, 300, 1000, 86400];
    let mut take = |r: &mut Rng| {
        let k = r.below(pool.len());
        pool.swap_remove(k)
    };
    let huge = r.one_in(6);
    let any = |r: &mut Rng, v: u64| if huge { *r.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 40, u64::MAX / 1000]) } else { v };
    let (a, b, d) = (take(r), take(r), take(r));
    Some(Srv {
        udp: SocketAddr::new(u, p),
        tcp: SocketAddr::new(t, q),
        uw: any(r, a),
        tw: any(r, b),
        tr: if r.one_in(4) { any(r, d) } else { r.range(1, 2) as u64 },
        ut: r.range(1, 7),
        tt: r.range(1, 5),
    })
}

/// Waits until both transports answer this query.
fn wait_up(run: &mut Run, s: &Srv, q: &[u8], conf: &str) -> Res {
    let end = Instant::now() + LONG;
    let (mut u, mut t) = (false, false);
    loop {
        u = u || ask_udp(s.udp, q, Duration::from_millis(300)).is_ok();
        t = t || ask_tcp(s.tcp, q, Duration::from_millis(300)).is_ok();
        if u && t {
            return Ok(());
        }
        if let Some(st) = run.ended() {
            return bad("accepted configuration does not serve", format!("the program ended ({}) with {}\n{}", st, conf, clip(&run.output(), 1500)));
        }
        if Instant::now() > end {
            return bad("accepted configuration does not serve", format!("UDP on {} answers: {}, TCP on {} answers: {}\n{}\n{}", s.udp, u, s.tcp, t, conf, clip(&run.output(), 1500)));
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Nobody serves the other transport's place.
fn only_there(s: &Srv, q: &[u8]) -> Res {
    let apart = s.udp.port() != s.tcp.port();
    if apart {
        ensure!(ask_udp(SocketAddr::new(s.udp.ip(), s.tcp.port()), q, Duration::from_millis(60)).is_err(), "serves elsewhere", "UDP is answered on the TCP server's port; {:?}", s);
        ensure!(ask_tcp(SocketAddr::new(s.tcp.ip(), s.udp.port()), q, Duration::from_millis(60)).is_err(), "serves elsewhere", "TCP is answered on the UDP server's port; {:?}", s);
    }
    Ok(())
}

/// (us, limit wanted in s, some below wanted is fine)
fn same_limit(us: i64, want: u64, below: bool) -> bool {
    if want > 1_000_000_000 {
        return us < 0 || us > 1_000_000_000_000_000;
    }
    let w = want as i64 * 1_000_000;
    let low = if below { 900_000 } else { 20_000 };
    us >= w - low && us <= w + 20_000
}

/// The time limits of the sockets, as used.
fn limits(c: &mut Case, ev: &[(u64, Vec<String>)], s: &Srv, upstream: Option<(u64, u64)>, ctx: &str) -> Res {
    let mut most: HashMap<String, i64> = HashMap::new();
    for (_, w) in ev {
        if w.len() == 4 && (w[0] == "send" || w[0] == "recv") {
            let v: i64 = w[3].parse().unwrap_or(0);
            let v = if v < 0 { i64::MAX } else { v };
            let k = w[..3].join(" ");
            let e = most.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
    }
    let mut want: Vec<(&str, u64, bool)> = vec![("send server udp", s.uw, false), ("send server tcp", s.tw, false), ("recv server tcp", s.tr, true)];
    if let Some((rt, wt)) = upstream {
        want.push(("send upstream udp", wt, false));
        want.push(("send upstream tcp", wt, false));
        want.push(("recv upstream udp", rt, true));
        want.push(("recv upstream tcp", rt, true));
    }
    for (k, w, below) in want {
        if let Some(v) = most.get(k) {
            ensure!(same_limit(if *v == i64::MAX { -1 } else { *v }, w, below), "timeout not used", "{}: the time limit is {} us, configured {} s; {}", k, v, w, ctx);
            c.count(&format!("limit of {}", k));
        }
    }
    Ok(())
}

fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(ch) = it.next() {
        if ch == '\u{1b}' {
            for d in it.by_ref() {
                if d == 'm' {
                    break;
                }
            }
        } else {
            o.push(ch);
        }
    }
    o
}

/// The level of a line of the log, if it starts an entry.
fn level_of(line: &str) -> Option<usize> {
    let l = strip(line);
    let mut w = l.split_whitespace();
    let t = w.next()?;
    if t.len() < 19 || !t.as_bytes()[0].is_ascii_digit() || t.as_bytes()[10] != b'T' {
        return None;
    }
    let lv = w.next()?;
    LEVELS.iter().position(|x| *x == lv)
}

/// Nothing above the configured level is logged, something of it is.
fn log_level(c: &mut Case, out: &str, level: usize, ctx: &str) -> Res {
    let mut seen = [0; 5];
    for l in out.lines() {
        if let Some(k) = level_of(l) {
            seen[k] += 1;
            ensure!(k <= level, "log level not used", "{} entry with level {}: {}; {}", LEVELS[k], LEVELS[level], clip(l, 300), ctx);
        }
    }
    if level >= 2 {
        ensure!(seen[2] > 0, "log level not used", "no INFO entry with level {}: {}; {}", LEVELS[level], clip(out, 500), ctx);
    }
    if level >= 3 {
        ensure!(seen[3] > 0, "log level not used", "no DEBUG entry with level {}: {}; {}", LEVELS[level], clip(out, 500), ctx);
    }
    c.count(&format!("log level {}", LEVELS[level]));
    Ok(())
}

/// As many connections are served at once as there are TCP workers, each no longer than its timeout.
fn tcp_workers(c: &mut Case, s: &Srv, q: &[u8], ctx: &str) -> Res {
    if s.tr > 3 {
        return Ok(());
    }
    let limit = Duration::from_secs(s.tr);
    let open = || TcpStream::connect_timeout(&reach(s.tcp), LONG);
    let mut last = String::new();
    for _ in 0..4 {
        let mut idle = vec![];
        let t0 = Instant::now();
        for _ in 0..s.tt - 1 {
            match open() {
                Ok(x) => idle.push(x),
                Err(e) => return inconclusive(format!("connect: {}", e)),
            }
        }
        let asked = Instant::now();
        let a = ask_tcp(s.tcp, q, LONG);
        ensure!(a.is_ok(), "not served", "{:?} behind {} idle connections; {}", a, idle.len(), ctx);
        if t0.elapsed() + Duration::from_millis(100) > limit {
            last = format!("{} idle connections and {} workers: a query took {:?}", idle.len(), s.tt, asked.elapsed());
            std::thread::sleep(limit);
            continue;
        }
        let Ok(x) = open() else { return inconclusive("connect") };
        idle.push(x);
        // Now all workers are busy until the first one gives up.
        let a = ask_tcp(s.tcp, q, LONG);
        ensure!(a.is_ok(), "not served", "{:?} behind {} idle connections; {}", a, idle.len(), ctx);
        let took = t0.elapsed();
        ensure!(took + Duration::from_millis(60) >= limit, "threads or timeout not used", "{} idle connections should keep all {} TCP workers busy for {} s, but a query was answered after {:?}; {}", idle.len(), s.tt, s.tr, took, ctx);
        ensure!(took <= limit + Duration::from_secs(6), "timeout not used", "{} idle connections kept {} TCP workers busy for {:?}, read timeout {} s; {}", idle.len(), s.tt, took, s.tr, ctx);
        for mut k in idle {
            let _ = k.set_read_timeout(Some(LONG));
            let mut b = [0];
            let e = k.read(&mut b);
            ensure!(matches!(e, Ok(0)) || matches!(&e, Err(x) if x.kind() == io::ErrorKind::ConnectionReset), "timeout not used", "idle connection: {:?} after {:?}; {}", e, t0.elapsed(), ctx);
        }
        c.count("TCP workers counted by idle connections");
        return Ok(());
    }
    bad("threads not used", format!("{}; {}", last, ctx))
}

static BASE: OnceLock<Mutex<HashMap<String, usize>>> = OnceLock::new();

/// Threads of the program with one worker each.
fn base_tasks(c: &Case, r: &mut Rng, bin: &str, dir: &str) -> Result<usize, Bad> {
    let m = BASE.get_or_init(|| Mutex::new(HashMap::new()));
    if let Some(n) = m.lock().unwrap().get(bin) {
        return Ok(*n);
    }
    let Some(mut s) = pick_srv(r, c.shard) else { return inconclusive("no port") };
    (s.ut, s.tt) = (1, 1);
    let (conf, q) = if bin == "nameserver" {
        std::fs::write(format!("{}/base-zone", dir), "@ IN SOA ns.ok. h.ok. 1 2 3 4 5\n@ IN NS ns.ok.\nns IN A 127.0.0.1\n").unwrap();
        (vec![("zone", obj(vec![("starting_ttl", raw(5)), ("zone", js("ok.")), ("file", js("base-zone")), ("sub_zones", J::Arr(vec![]))]))], query("ok.", SOA, 1))
    } else {
        (vec![("resolver", res_json(&ResV { nsq: 2, retries: 2, cname: 3, rt: 1, wt: 1, period: 50, cleaned: 5, silent: true, verbose: false, color: false }))], query("a.ok.", A, 1))
    };
    let mut v = vec![("log_level", js("ERROR"))];
    v.extend(srv_json(&s));
    v.extend(conf);
    let t = obj(v).text(r, false);
    std::fs::write(format!("{}/conf.json", dir), &t).unwrap();
    let up = match Upstream::new(r) {
        Ok(u) => u,
        Err(e) => return inconclusive(e.to_string()),
    };
    let mut run = match Run::start(dir, bin, &["conf.json"], Some(up.addr)) {
        Ok(x) => x,
        Err(e) => return inconclusive(format!("cannot run: {}", e)),
    };
    wait_up(&mut run, &s, &q, &t)?;
    let n = run.tasks();
    m.lock().unwrap().insert(bin.to_string(), n);
    Ok(n)
}

fn census(c: &mut Case, run: &Run, base: usize, s: &Srv, ctx: &str) -> Res {
    let want = base + s.ut - 1 + s.tt - 1;
    let mut n = 0;
    for _ in 0..40 {
        n = run.tasks();
        if n == want {
            c.count("threads counted");
            return Ok(());
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    bad("threads not used", format!("{} threads with {} UDP and {} TCP workers configured, {} with 1 and 1; {}", n, s.ut, s.tt, base, ctx))
}

fn nameserver(c: &mut Case) -> Res {
    let r = &mut Rng::new(c.rng.u64());
    let dir = format!("{}/s05-{}", c.dir, c.shard);
    let _ = std::fs::create_dir_all(&dir);
    let base = base_tasks(c, r, "nameserver", &dir)?;
    let Some(s) = pick_srv(r, c.shard) else { return inconclusive("no port") };
    let z = gen_zset(r, 12);
    let fancy = r.bool();
    let fs = render(r, &z, fancy);
    zone::write_files(&dir, &fs);
    let level = r.below(5);
    let absolute = r.bool();
    let file = |n: &str| if absolute { format!("{}/{}", dir, n) } else { n.to_string() };
    let mut v = vec![("log_level", js(LEVELS[level]))];
    v.extend(srv_json(&s));
    let subs = z.subs.iter().enumerate().map(|(i, s)| obj(vec![("starting_ttl", raw(s.ttl0)), ("min_ttl", raw(s.min)), ("zone", js(text(&s.zone))), ("file", js(file(&format!("sub{}", i))))])).collect();
    v.push(("zone", obj(vec![("starting_ttl", raw(z.ttl0)), ("zone", js(text(&z.zone))), ("file", js(file("main"))), ("sub_zones", J::Arr(subs))])));
    let mut j = obj(v);
    j.shuffle(r, false);
    let conf = j.text(r, true);
    std::fs::write(format!("{}/conf.json", dir), &conf).unwrap();
    let mut run = match Run::start(&dir, "nameserver", &["conf.json"], None) {
        Ok(x) => x,
        Err(e) => return inconclusive(format!("cannot run: {}", e)),
    };
    let ctx = format!("nameserver with {}", conf);
    let soa = query(&text(&z.zone), SOA, 9);
    wait_up(&mut run, &s, &soa, &ctx)?;
    only_there(&s, &soa)?;
    census(c, &run, base, &s, &ctx)?;
    for k in 0..r.range(5, 25) {
        let q = gen_query(r, &z);
        let b = encode(&RMsg { h: RHdr { id: k as u16, rd: r.bool(), ..Default::default() }, q: vec![q.clone()], ..Default::default() });
        let tcp = k % 2 == 1;
        let rep = match if tcp { ask_tcp(s.tcp, &b, LONG) } else { ask_udp(s.udp, &b, LONG) } {
            Ok(x) => x,
            Err(e) => return bad("not served", format!("{} over {} for {:?}; {}", e, if tcp { "TCP" } else { "UDP" }, q, ctx)),
        };
        let d = match decode_strict(&rep) {
            Ok(d) => d.msg,
            Err(e) => return bad("reply not decodable", format!("{} {:?} {}", e, q, hexs(&rep))),
        };
        if d.h.tc {
            c.count("truncated replies");
            continue;
        }
        let kind = judge_answer(&z, &q, &d).map_err(|b| match b {
            Bad::Violation(s, d) => Bad::Violation(format!("configured zone: {}", s), format!("{}\n{}\n{}", d, ctx, clip(&zone::dump(&fs), 2000))),
            b => b,
        })?;
        c.count(&format!("nameserver: {}", kind));
    }
    tcp_workers(c, &s, &soa, &ctx)?;
    limits(c, &run.events(), &s, None, &ctx)?;
    let late = run.ended();
    ensure!(late.is_none(), "accepted configuration does not serve", "the program ended: {:?}; {}", late, ctx);
    drop(run.p);
    let out = String::from_utf8_lossy(&std::fs::read(&run.out).unwrap_or_default()).to_string();
    log_level(c, &out, level, &ctx)?;
    zone::remove_files(&dir, fs.keys());
    c.count("nameservers served");
    c.distinct(fnv(conf.as_bytes()));
    c.sample("nameserver", || conf.clone());
    let _ = run.dir;
    Ok(())
}

struct ResV {
    nsq: u64,
    retries: u64,
    cname: u64,
    rt: u64,
    wt: u64,
    period: u64,
    cleaned: u64,
    silent: bool,
    verbose: bool,
    color: bool,
}

fn res_json(v: &ResV) -> J {
    obj(vec![
        ("max_ns_queried", raw(v.nsq)),
        ("max_ns_retries", raw(v.retries)),
        ("max_cname_redir", raw(v.cname)),
        ("read_timeout", raw(v.rt)),
        ("write_timeout", raw(v.wt)),
        ("cache_conf", obj(vec![("clean_period", raw(v.period)), ("entries_cleaned", raw(v.cleaned))])),
        ("trace_conf", obj(vec![("silent", raw(v.silent)), ("verbose", raw(v.verbose)), ("color", raw(v.color))])),
    ])
}

fn resolver(c: &mut Case) -> Res {
    let r = &mut Rng::new(c.rng.u64());
    let dir = format!("{}/s05-{}", c.dir, c.shard);
    let _ = std::fs::create_dir_all(&dir);
    let base = base_tasks(c, r, "resolver", &dir)?;
    let Some(s) = pick_srv(r, c.shard) else { return inconclusive("no port") };
    let huge = r.one_in(6);
    let mut v = ResV {
        nsq: r.range(1, 5) as u64,
        retries: r.range(1, 4) as u64,
        cname: r.range(2, 13) as u64,
        rt: r.range(1, 2) as u64,
        wt: *r.pick(&[5, 17, 43, 101, 999]),
        period: *r.pick(&[1, 1, 2, 11, 37, 71, 555]),
        cleaned: *r.pick(&[1, 4, 19, 1000, u64::MAX]),
        silent: r.one_in(4),
        verbose: r.bool(),
        color: r.bool(),
    };
    if huge {
        let big = |r: &mut Rng, v: u64| if r.bool() { *r.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 40]) } else { v };
        v.nsq = big(r, v.nsq);
        v.retries = big(r, v.retries);
        v.cname = big(r, v.cname);
        v.rt = big(r, v.rt);
        v.wt = big(r, v.wt);
        v.period = big(r, v.period);
        c.count("resolvers with enormous values");
    }
    let level = *r.pick(&[0, 1, 2, 2, 3, 4]);
    let mut f = vec![("log_level", js(LEVELS[level]))];
    f.extend(srv_json(&s));
    f.push(("resolver", res_json(&v)));
    let mut j = obj(f);
    j.shuffle(r, false);
    let conf = j.text(r, true);
    std::fs::write(format!("{}/conf.json", dir), &conf).unwrap();
    let up = match Upstream::new(r) {
        Ok(u) => u,
        Err(e) => return inconclusive(e.to_string()),
    };
    let mut run = match Run::start(&dir, "resolver", &["conf.json"], Some(up.addr)) {
        Ok(x) => x,
        Err(e) => return inconclusive(format!("cannot run: {}", e)),
    };
    let ctx = format!("resolver with {}", conf);
    let a = query("a.ok.", A, 9);
    wait_up(&mut run, &s, &a, &ctx)?;
    only_there(&s, &a)?;
    census(c, &run, base, &s, &ctx)?;
    let ask = |tcp: bool, n: &str| -> Result<RMsg, Bad> {
        let q = query(n, A, 77);
        let rep = match if tcp { ask_tcp(s.tcp, &q, LONG) } else { ask_udp(s.udp, &q, LONG) } {
            Ok(x) => x,
            Err(e) => return bad("not served", format!("{} over {} for {}; {}", e, if tcp { "TCP" } else { "UDP" }, n, ctx)),
        };
        match decode_strict(&rep) {
            Ok(d) => Ok(d.msg),
            Err(e) => bad("reply not decodable", format!("{} {} {}", e, n, hexs(&rep))),
        }
    };
    // Truncated replies go on over TCP; aliases up to the limit.
    for (k, n) in ["b.ok.", "c.ok.", "tc1.ok.", "tc2.ok."].iter().enumerate() {
        let m = ask(k % 2 == 0, n)?;
        ensure!(m.h.rcode == 0 && m.sec[0].len() == 1 && m.h.ra, "wrong reply", "{:?} for {}; {}", m, n, ctx);
    }
    let chain = |k: u64| -> String { format!("k{}-{}.ok.", k, k) };
    if v.cname <= 13 {
        let k = v.cname - 1;
        let m = ask(true, &chain(k))?;
        ensure!(m.h.rcode == 0 && m.sec[0].len() == k as usize + 1, "alias limit not used", "{} aliases, {} allowed: {:?}; {}", k, v.cname, m, ctx);
        let k = v.cname + 1;
        let m = ask(true, &chain(k))?;
        ensure!(m.h.rcode == 2, "alias limit not used", "{} aliases, {} allowed: {:?}; {}", k, v.cname, m, ctx);
        c.count("alias limit used");
    } else {
        let m = ask(true, &chain(20))?;
        ensure!(m.h.rcode == 0 && m.sec[0].len() == 21, "alias limit not used", "{} aliases, {} allowed: {:?}; {}", 20, v.cname, m, ctx);
    }
    // The traces of these lookups.
    std::thread::sleep(Duration::from_millis(20));
    let out = run.output();
    if level >= 2 {
        let plain = strip(&out);
        let traced = plain.to_lowercase().contains("root-servers");
        ensure!(traced != v.silent, "trace setting not used", "silent is {}, but traces {} servers; {}\n{}", v.silent, if traced { "name" } else { "do not name" }, ctx, clip(&out, 1500));
        if !v.silent {
            let raw = plain.contains("junk.example");
            ensure!(raw == v.verbose, "trace setting not used", "verbose is {}, but the unfiltered records are {}; {}\n{}", v.verbose, if raw { "there" } else { "not there" }, ctx, clip(&out, 2500));
            // Lines of traces have no level.
            let colour = out.lines().filter(|l| level_of(l).is_none()).any(|l| l.contains('\u{1b}'));
            // (The error line at the end of too many aliases is not a server's.)
            ensure!(colour == v.color, "trace setting not used", "color is {}, but traces are {}; {}\n{}", v.color, if colour { "coloured" } else { "plain" }, ctx, clip(&out, 2500));
            c.count(&format!("traces verbose {} color {}", v.verbose, v.color));
        } else {
            c.count("silent traces");
        }
    }
    // As many lookups at once as there are UDP workers.
    if v.rt >= 1 {
        let window = Duration::from_millis(if v.rt > 5 { 2000 } else { v.rt * 700 });
        let mut best = 0;
        let mut most = 0;
        for round in 0..4 {
            {
                let mut st = up.st.lock().unwrap();
                st.asked.clear();
                st.open = false;
            }
            let sock = match udp_to(s.udp) {
                Ok(x) => x,
                Err(e) => return inconclusive(e.to_string()),
            };
            let n = s.ut + 3;
            let t0 = Instant::now();
            for k in 0..n {
                let _ = sock.send(&query(&format!("gate{}-{}.ok.", round, k), A, k as u16));
            }
            let names = || -> usize {
                let st = up.st.lock().unwrap();
                let first = st.asked.first().map(|x| x.0).unwrap_or(t0);
                st.asked.iter().filter(|x| x.0 < first + window).map(|x| x.1.clone()).collect::<HashSet<_>>().len()
            };
            while t0.elapsed() < window + Duration::from_millis(50) {
                // (Also wait a little for one too many.)
                std::thread::sleep(Duration::from_millis(10));
                if names() >= s.ut && t0.elapsed() > Duration::from_millis(250) {
                    break;
                }
            }
            best = best.max(names());
            most = most.max(names());
            up.st.lock().unwrap().open = true;
            let _ = sock.set_read_timeout(Some(LONG));
            let mut b = [0; 600];
            for k in 0..n {
                ensure!(sock.recv(&mut b).is_ok(), "not served", "of {} simultaneous lookups, {} are answered; {}", n, k, ctx);
            }
            if best >= s.ut {
                break;
            }
        }
        ensure!(best >= s.ut, "threads not used", "{} lookups at once with {} UDP workers; {}", best, s.ut, ctx);
        ensure!(most <= s.ut, "threads not used", "{} lookups at once with {} UDP workers; {}", most, s.ut, ctx);
        c.count("UDP workers counted by lookups");
    }
    // Nobody answers: so many servers, so often, so long.
    if v.nsq.saturating_mul(v.retries).saturating_mul(v.rt) <= 6 {
        let before = run.events().len();
        let t0 = Instant::now();
        let m = ask(r.bool(), "silent.ok.")?;
        let took = t0.elapsed();
        ensure!(m.h.rcode == 2, "wrong reply", "{:?} when nobody answers; {}", m, ctx);
        let ev = run.events();
        let mut per: BTreeMap<String, u64> = BTreeMap::new();
        for (_, w) in &ev[before.min(ev.len())..] {
            if w.len() == 3 && w[0] == "ask" {
                *per.entry(w[2].clone()).or_default() += 1;
            }
        }
        if !per.is_empty() {
            ensure!(per.len() as u64 == v.nsq, "limit of nameservers not used", "{:?} were asked, {} may be; {}", per, v.nsq, ctx);
            ensure!(per.values().all(|n| *n == v.retries), "retries not used", "{:?}, {} tries each are configured; {}", per, v.retries, ctx);
            c.count("limits of nameservers and retries used");
        }
        let least = Duration::from_secs(v.nsq * v.retries * v.rt);
        ensure!(took + Duration::from_millis(100) >= least && took <= least + Duration::from_secs(8), "timeout not used", "gave up after {:?} instead of {:?}; {}", took, least, ctx);
        c.count("upstream read timeout used");
    }
    tcp_workers(c, &s, &a, &ctx)?;
    let ev = run.events();
    limits(c, &ev, &s, Some((v.rt, v.wt)), &ctx)?;
    let sleeps: Vec<&Vec<String>> = ev.iter().map(|e| &e.1).filter(|w| w[0] == "sleep").collect();
    if v.period < 1_000_000_000 && !sleeps.is_empty() {
        let ok = sleeps.iter().any(|w| w[1].parse::<u64>().map(|s| s == v.period || s + 1 == v.period).unwrap_or(false));
        ensure!(ok, "cleaning period not used", "sleeps {:?}, configured {} s; {}", clip(&format!("{:?}", sleeps), 500), v.period, ctx);
        c.count("cleaning period used");
    }
    let late = run.ended();
    ensure!(late.is_none(), "accepted configuration does not serve", "the program ended: {:?}; {}", late, ctx);
    drop(run.p);
    let out = String::from_utf8_lossy(&std::fs::read(&run.out).unwrap_or_default()).to_string();
    log_level(c, &out, level, &ctx)?;
    c.count("resolvers served");
    c.distinct(fnv(conf.as_bytes()));
    c.sample("resolver", || conf.clone());
    Ok(())
}

/// Nothing is served and the program ends with a failure.
fn refused(dir: &str, bin: &str, args: &[&str], what: &str) -> Res {
    let mut run = match Run::start(dir, bin, args, None) {
        Ok(x) => x,
        Err(e) => return inconclusive(format!("cannot run: {}", e)),
    };
    let end = Instant::now() + LONG;
    let st = loop {
        if let Some(st) = run.ended() {
            break st;
        }
        if Instant::now() > end {
            return bad("invalid configuration does not end the program", format!("{} {:?}: {} is still running; {}", bin, args, what, clip(&run.output(), 500)));
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    ensure!(!st.success(), "invalid configuration ends without failure", "{} {:?} ({}): {}", bin, args, what, st);
    for (_, w) in run.events() {
        if w[0] == "bind" && w.len() == 4 && w[3] == "0" {
            return bad("served in spite of an invalid configuration", format!("{} {:?} ({}): bound {} port {}", bin, args, what, w[1], w[2]));
        }
    }
    Ok(())
}

fn programs_refuse(c: &mut Case) -> Res {
    let r = &mut Rng::new(c.rng.u64());
    let dir = format!("{}/s05-{}", c.dir, c.shard);
    let _ = std::fs::create_dir_all(&dir);
    for _ in 0..6 {
        let resolver = r.bool();
        let bin = if resolver { "resolver" } else { "nameserver" };
        let Some(s) = pick_srv(r, c.shard) else { return inconclusive("no port") };
        let path = format!("{}/conf.json", dir);
        let mut fields: Vec<(Vec<String>, Kind)> = SRV_FIELDS.iter().map(|f| (f.0.split('.').map(String::from).collect(), f.1)).collect();
        let mut v = vec![("log_level", js(r.pick(&LEVELS)))];
        v.extend(srv_json(&s));
        if resolver {
            v.push(("resolver", res_json(&ResV { nsq: 2, retries: 2, cname: 3, rt: 1, wt: 1, period: 50, cleaned: 5, silent: true, verbose: false, color: false })));
            fields.extend(RES_FIELDS.iter().map(|f| (f.0.split('.').map(String::from).collect(), f.1)));
        } else {
            std::fs::write(format!("{}/base-zone", dir), "@ IN SOA ns.ok. h.ok. 1 2 3 4 5\n@ IN NS ns.ok.\nns IN A 127.0.0.1\n").unwrap();
            v.push(("zone", obj(vec![("starting_ttl", raw(5)), ("zone", js("ok.")), ("file", js("base-zone")), ("sub_zones", J::Arr(vec![]))])));
            fields.extend(ZONE_FIELDS.iter().map(|f| (f.0.split('.').map(String::from).collect(), f.1)));
        }
        let mut j = obj(v);
        match r.below(if resolver { 6 } else { 9 }) {
            0 => {
                // Wrong number of arguments.
                std::fs::write(&path, j.text(r, false)).unwrap();
                let args: Vec<&str> = ["conf.json"; 3][..*r.pick(&[0, 2, 3])].to_vec();
                refused(&dir, bin, &args, "number of arguments")?;
                c.count("refused number of arguments");
            }
            1 => {
                let p = *r.pick(&["nowhere.json", ".", "/dev/null", ""]);
                refused(&dir, bin, &[p], "no such file")?;
                c.count("refused paths");
            }
            k if k >= 6 => {
                let what = match r.below(4) {
                    0 => {
                        *j.at(&["zone".into(), "file".into()]).unwrap() = js(r.pick(&["nowhere", ".", "/nonexistent/zone", ""]));
                        "no such zone file".to_string()
                    }
                    1 => {
                        let sub = obj(vec![("starting_ttl", raw(1)), ("min_ttl", raw(1)), ("zone", js("sub.ok.")), ("file", js("nowhere"))]);
                        *j.at(&["zone".into(), "sub_zones".into()]).unwrap() = J::Arr(vec![sub]);
                        "no such file of a sub zone".to_string()
                    }
                    2 => {
                        let z = r.pick(&["@ IN NS ns.ok.\n", "", "@ IN SOA ns.ok. h.ok. 1 2 3 4\n", "@ IN SOA ns.ok. h.ok. 1 2 3 4 5\nx IN A 1.2.3\n", "@ IN SOA ns.ok. h.ok. 1 2 3 4 5\nx.other. IN A 1.2.3.4\n"]);
                        std::fs::write(format!("{}/base-zone", dir), z).unwrap();
                        format!("zone file {:?}", z)
                    }
                    _ => {
                        std::fs::write(format!("{}/base-zone", dir), b"@ IN SOA ns.ok. h.ok. 1 2 3 4 5\nx IN TXT \xff\xfe\xfa\nx IN\n").unwrap();
                        "zone file of rubbish".to_string()
                    }
                };
                std::fs::write(&path, j.text(r, false)).unwrap();
                refused(&dir, bin, &["conf.json"], &what)?;
                c.count("refused zone files");
            }
            _ => {
                let (what, bytes) = break_conf(r, resolver, j, &fields, &["udp_server".to_string(), "tcp_server".to_string()]);
                std::fs::write(&path, &bytes).unwrap();
                refused(&dir, bin, &["conf.json"], &format!("{}: {}", what, String::from_utf8_lossy(&bytes)))?;
                c.count("refused by the programs");
                c.distinct(fnv(&bytes));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- entries_cleaned

/// How many of the expired entries one cleaning removes when fewer may be cleaned.
fn entries_cleaned() -> Res {
    use ariadne_dns::resolver::{Cache, CacheConf};
    struct V(Arc<std::sync::atomic::AtomicUsize>);
    impl Drop for V {
        fn drop(&mut self) {
            self.0.fetch_add(1, SeqCst);
        }
    }
    let dropped = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let cache: Cache<u32, V> = Cache::new(CacheConf { clean_period: Duration::from_secs(1), max_cleaned: 2 });
    for k in 0..6 {
        cache.set(k, Duration::from_millis(1), V(dropped.clone()));
    }
    std::thread::sleep(Duration::from_millis(30));
    cache.clean();
    let n = dropped.load(SeqCst);
    if n > 2 {
        return bad("entries-cleaned", format!("with entries_cleaned 2, one cleaning removes {} entries", n));
    }
    Ok(())
}

pub fn s05(c: &mut Case) -> Res {
    if c.index == 0 {
        entries_cleaned()?;
    }
    match c.rng.below(10) {
        0 | 1 => files(c),
        2..=4 => nameserver(c),
        5..=8 => resolver(c),
        _ => programs_refuse(c),
    }
}
