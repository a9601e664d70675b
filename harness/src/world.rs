//! A small DNS: zones, delegations, nameservers with styles and faults, and the truth about it.
use crate::sim::*;
use crate::util::*;
use crate::wire::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};

pub type Ip = [u8; 4];

/// Addresses of the thirteen root servers.
pub const ROOTS: [Ip; 13] = [
    [198, 41, 0, 4],
    [199, 9, 14, 201],
    [192, 33, 4, 12],
    [199, 7, 91, 13],
    [192, 203, 230, 10],
    [192, 5, 5, 241],
    [192, 112, 36, 4],
    [198, 97, 190, 53],
    [192, 36, 148, 17],
    [192, 58, 128, 30],
    [193, 0, 14, 129],
    [199, 7, 83, 42],
    [202, 12, 27, 33],
];
/// The address b.root-servers.net. has had since 2023.
pub const ROOT_B2: Ip = [170, 247, 170, 2];

pub fn is_root(ip: &Ip) -> bool {
    ROOTS.contains(ip) || *ip == ROOT_B2
}

pub fn ip_of(a: &SocketAddr) -> Option<Ip> {
    match a.ip() {
        IpAddr::V4(v) => Some(v.octets()),
        _ => None,
    }
}

pub fn dns_addr(ip: Ip) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::from(ip)), 53)
}

#[derive(Clone, Debug)]
pub struct Zn {
    pub name: RName,
    pub parent: usize,
    pub nss: Vec<RName>,
    pub ns_ttl: u32,
    /// The records of the NS set have their own TTLs: seed and kind.
    pub ns_var: Option<(u64, u8)>,
    /// Referrals to this zone carry the addresses of nameservers in sibling zones too.
    pub sib_glue: bool,
    pub soa: RRec,
    /// Authoritative data by lower-cased name (without the apex SOA and NS).
    pub data: BTreeMap<RName, Vec<RRec>>,
    pub cuts: Vec<usize>,
    pub depth: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Style {
    /// Follow aliases inside the zones served.
    pub chase: bool,
    /// Add authority and additional records to answers.
    pub hints: bool,
    pub compress: usize,
    /// Add addresses of nameservers outside the delegated zone.
    pub extra_glue: bool,
    /// When cutting for UDP keep what fits.
    pub tc_partial: bool,
    pub shuffle: bool,
    /// Answer in the letter case of the question (or in the zone's own).
    pub echo: bool,
    /// Name errors and empty answers carry a SOA.
    pub soa: bool,
    pub ra: bool,
    /// Include the names of the zone's NS set as referral to itself in name errors.
    pub split: bool,
    /// Takes streams only from those it sent a truncated reply.
    pub udp_only: bool,
    /// Truncates every reply.
    pub cut_all: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    Silent,
    Refused,
    Rcode(u8),
    Garbage,
    Short,
    WrongId,
    WrongName,
    WrongType,
    NoQuestion,
    TwoQuestions,
    NotResponse,
    /// NOERROR without any record (authoritative or not).
    Empty(bool),
    /// NXDOMAIN that does not claim authority.
    NxNoAa,
    /// A referral to the root or to the zone itself.
    Lame(u8),
    /// Records about something else.
    Unrelated,
    /// Always truncated, and TCP does not work: refused, no answer, half an answer, garbage.
    TcDead(u8),
    SendErr(i32),
    ConnectErr(i32),
    /// Answers only each n-th attempt of the same question.
    Flaky(u32),
    /// The same, the other attempts failing in various ways.
    Fickle(u32),
    /// Cut in the middle of a record, without the flag.
    Cut,
}

#[derive(Clone, Debug)]
pub struct Srv {
    pub zones: Vec<usize>,
    pub style: Style,
    pub fault: Fault,
    pub lat: (u64, u64),
}

#[derive(Clone, Debug)]
pub struct Sent {
    pub t: u64,
    pub dst: SocketAddr,
    pub bytes: Vec<u8>,
    pub tcp: bool,
    pub q: Option<(RHdr, RQ)>,
}

#[derive(Clone, Debug)]
pub struct Got {
    pub t: u64,
    pub from: Ip,
    pub msg: RMsg,
}

#[derive(Clone, Debug, Default)]
pub struct Junk {
    /// Chance that a datagram that must not count is delivered before the genuine reply.
    pub pct: usize,
    /// Only from elsewhere (what a connected socket is not even given).
    pub off_path_only: bool,
}

pub type Custom = Box<dyn FnMut(&mut World, u64, Ip, &RHdr, &RQ, u32, bool) -> Option<Act> + Send>;

/// A reply chosen by a check instead of the world.
pub enum Act {
    /// Reply with this message (id and question as in the query unless `raw`).
    Msg(RMsg),
    Raw(Vec<u8>),
    Silence,
    /// TCP only.
    Pieces(Vec<(u64, Piece)>),
    Err(i32),
}

pub struct World {
    pub seed: u64,
    pub zones: Vec<Zn>,
    pub servers: BTreeMap<Ip, Srv>,
    pub sent: Vec<Sent>,
    pub got: Vec<Got>,
    pub junk: Junk,
    pub problems: Vec<String>,
    pub counts: BTreeMap<&'static str, u64>,
    pub custom: Option<Custom>,
    pub tcp_modes: BTreeMap<Ip, u8>,
    pending: HashMap<u64, (Ip, RMsg)>,
    next_tag: u64,
    cut: BTreeSet<Ip>,
    attempts: HashMap<(Ip, RName, u16), u32>,
    next_ip: u32,
}

/// What is the case about a name and type.
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Records(Vec<RRec>),
    NxDomain,
    NoData,
    Loop,
}

#[derive(Clone, Debug)]
pub struct Truth {
    pub chain: Vec<RRec>,
    pub end: End,
}

pub struct GenOpt {
    pub zones: (usize, usize),
    pub oob: usize,
    pub ttl: u8,
    pub ns_ttl: u8,
    pub aliases: usize,
    pub big: usize,
    pub max_ns: usize,
    pub mixed_ttl: usize,
    /// Percentage of worlds with two zones serving each other.
    pub siblings: usize,
    pub depth: usize,
}

impl Default for GenOpt {
    fn default() -> Self {
        GenOpt { zones: (2, 9), oob: 25, ttl: 2, ns_ttl: 2, aliases: 6, big: 8, max_ns: 4, mixed_ttl: 5, siblings: 12, depth: 5 }
    }
}

pub fn gen_ttl(r: &mut Rng, profile: u8) -> u32 {
    match profile {
        // Short.
        0 => *r.pick(&[1, 2, 3, 5, 8, 10, 30]),
        // Long.
        1 => *r.pick(&[3600, 7200, 86400, 604800]),
        // Anything but zero.
        2 => *r.pick(&[1, 5, 60, 300, 3600, 86400, 604800, 0x7fff_ffff]),
        // Anything.
        3 => match r.below(12) {
            0 => 0,
            1 => u32::MAX,
            2 => 0x8000_0000,
            _ => gen_ttl(r, 2),
        },
        _ => 300,
    }
}

const LABELS: &[&str] = &[
    "a", "b", "ab", "c", "www", "mail", "ns", "com", "net", "org", "dev", "x-y", "0", "1a", "example", "corp", "co", "uk", "test", "Mixed", "UPPER", "xn--p1ai", "e", "ex", "pool", "cdn", "m", "in",
];

pub fn gen_lbl(r: &mut Rng) -> Vec<u8> {
    match r.below(14) {
        0 => {
            let n = r.range(1, 63);
            (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyz0123456789")).collect()
        }
        1 => format!("{}{}", r.pick(LABELS), r.below(100)).into_bytes(),
        _ => r.pick(LABELS).as_bytes().to_vec(),
    }
}

pub fn random_case(r: &mut Rng, n: &RName) -> RName {
    n.iter()
        .map(|l| l.iter().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect())
        .collect()
}

impl World {
    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }

    pub fn fresh_ip(&mut self) -> Ip {
        self.next_ip += 1;
        let n = self.next_ip;
        [10, (n >> 14) as u8 & 63, (n >> 7) as u8 & 127, (n & 127) as u8 + 1]
    }

    pub fn empty(seed: u64) -> World {
        World {
            seed,
            zones: vec![],
            servers: BTreeMap::new(),
            sent: vec![],
            got: vec![],
            junk: Junk::default(),
            problems: vec![],
            counts: BTreeMap::new(),
            custom: None,
            tcp_modes: BTreeMap::new(),
            pending: HashMap::new(),
            next_tag: 1,
            cut: BTreeSet::new(),
            attempts: HashMap::new(),
            next_ip: 0,
        }
    }

    /// The closest zone enclosing a name.
    pub fn zone_of(&self, n: &RName) -> usize {
        let mut best = 0;
        for (i, z) in self.zones.iter().enumerate() {
            if in_zone(n, &z.name) && z.name.len() >= self.zones[best].name.len() {
                best = i;
            }
        }
        best
    }

    pub fn addrs(&self, ns: &RName) -> Vec<RRec> {
        let z = self.zone_of(ns);
        self.zones[z].data.get(&lower(ns)).map(|v| v.iter().filter(|r| matches!(r.data, RData::A(_))).cloned().collect()).unwrap_or_default()
    }

    /// Addresses of all nameservers of a zone.
    pub fn zone_ips(&self, z: usize) -> Vec<Ip> {
        if z == 0 {
            return ROOTS.to_vec();
        }
        let mut v = vec![];
        for ns in &self.zones[z].nss {
            for a in self.addrs(ns) {
                if let RData::A(ip) = a.data {
                    v.push(ip);
                }
            }
        }
        v
    }

    pub fn apex_ns(&self, z: usize) -> Vec<RRec> {
        let z = &self.zones[z];
        let ttl = |i: usize| match z.ns_var {
            Some((seed, kind)) if i > 0 => gen_ttl(&mut Rng::new(mix(seed, i as u64)), kind),
            _ => z.ns_ttl,
        };
        z.nss.iter().enumerate().map(|(i, n)| RRec { name: z.name.clone(), ttl: ttl(i), data: RData::Name(NS, n.clone()) }).collect()
    }

    /// All records at a name of a zone (authoritative).
    pub fn at(&self, z: usize, n: &RName) -> Vec<RRec> {
        let zn = &self.zones[z];
        let mut v = vec![];
        if name_eq(n, &zn.name) {
            v.push(zn.soa.clone());
            v.extend(self.apex_ns(z));
        }
        v.extend(zn.data.get(&lower(n)).cloned().unwrap_or_default());
        v
    }

    pub fn exists(&self, z: usize, n: &RName) -> bool {
        let zn = &self.zones[z];
        name_eq(n, &zn.name)
            || zn.data.keys().any(|k| in_zone(k, n))
            || zn.cuts.iter().any(|c| in_zone(&self.zones[*c].name, n))
    }

    pub fn truth(&self, name: &RName, qtype: u16) -> Truth {
        let mut chain: Vec<RRec> = vec![];
        let mut cur = name.clone();
        loop {
            let z = self.zone_of(&cur);
            let recs = self.at(z, &cur);
            let set: Vec<RRec> = recs.iter().filter(|r| r.data.rtype() == qtype).cloned().collect();
            if !set.is_empty() {
                return Truth { chain, end: End::Records(set) };
            }
            if let Some(c) = recs.iter().find(|r| r.data.rtype() == CNAME) {
                let t = match &c.data {
                    RData::Name(_, t) => t.clone(),
                    _ => unreachable!(),
                };
                let again = chain.iter().any(|r| name_eq(&r.name, &cur));
                if again || chain.len() > 60 {
                    return Truth { chain, end: End::Loop };
                }
                chain.push(c.clone());
                cur = t;
                continue;
            }
            let end = if self.exists(z, &cur) { End::NoData } else { End::NxDomain };
            return Truth { chain, end };
        }
    }

    fn best_zone(&self, zones: &[usize], n: &RName) -> Option<usize> {
        zones.iter().copied().filter(|z| in_zone(n, &self.zones[*z].name)).max_by_key(|z| self.zones[*z].name.len())
    }

    fn referral(&self, m: &mut RMsg, from: usize, child: usize, st: &Style) {
        let ns = self.apex_ns(child);
        for n in &self.zones[child].nss {
            let inside = in_zone(n, &self.zones[child].name);
            let near = in_zone(n, &self.zones[from].name);
            if inside || (near && (st.extra_glue || self.zones[child].sib_glue)) {
                m.sec[2].extend(self.addrs(n));
            } else if st.extra_glue && st.split {
                // Addresses a server has no say about; correct ones.
                m.sec[2].extend(self.addrs(n));
            }
        }
        m.sec[1].extend(ns);
    }

    /// The reply of an honest server for some zones.
    pub fn honest(&self, zones: &[usize], st: &Style, h: &RHdr, q: &RQ, rng: &mut Rng) -> RMsg {
        let mut m = RMsg { h: RHdr { id: h.id, qr: true, op: 0, rd: h.rd, ra: st.ra, ..Default::default() }, q: vec![q.clone()], ..Default::default() };
        let mut cur = q.name.clone();
        let mut first = true;
        let mut last_zone = None;
        for _ in 0..12 {
            let z = match self.best_zone(zones, &cur) {
                Some(z) => z,
                None => {
                    if first {
                        m.h.rcode = 5;
                        return m;
                    }
                    break;
                }
            };
            if let Some(child) = self.zones[z].cuts.iter().copied().find(|c| in_zone(&cur, &self.zones[*c].name)) {
                if first || st.hints {
                    self.referral(&mut m, z, child, st);
                }
                last_zone = None;
                break;
            }
            last_zone = Some(z);
            m.h.aa = true;
            let mut recs = self.at(z, &cur);
            if st.echo {
                for r in &mut recs {
                    r.name = cur.clone();
                }
            }
            let set: Vec<RRec> = recs.iter().filter(|r| r.data.rtype() == q.qtype).cloned().collect();
            if !set.is_empty() {
                m.sec[0].extend(set);
                break;
            }
            if let Some(c) = recs.iter().find(|r| r.data.rtype() == CNAME) {
                let t = match &c.data {
                    RData::Name(_, t) => t.clone(),
                    _ => unreachable!(),
                };
                if m.sec[0].iter().any(|r| name_eq(&r.name, &cur)) {
                    break;
                }
                m.sec[0].push(c.clone());
                first = false;
                cur = t;
                if st.chase {
                    continue;
                }
                if st.hints {
                    // What the server knows about the target.
                    if let Some(z2) = self.best_zone(zones, &cur) {
                        if let Some(ch) = self.zones[z2].cuts.iter().copied().find(|c| in_zone(&cur, &self.zones[*c].name)) {
                            self.referral(&mut m, z2, ch, st);
                        }
                    }
                    last_zone = None;
                }
                break;
            }
            if !self.exists(z, &cur) {
                m.h.rcode = 3;
            }
            if st.soa {
                m.sec[1].push(self.zones[z].soa.clone());
            }
            last_zone = None;
            break;
        }
        if st.hints && !m.sec[0].is_empty() {
            if let Some(z) = last_zone {
                m.sec[1].extend(self.apex_ns(z));
                for n in &self.zones[z].nss {
                    m.sec[2].extend(self.addrs(n));
                }
            }
        }
        // Duplicates help nobody.
        for s in &mut m.sec {
            let mut seen = BTreeSet::new();
            s.retain(|r| seen.insert(format!("{:?}", (lower(&r.name), r.ttl, &r.data))));
            if st.shuffle {
                rng.shuffle(s);
            }
        }
        m
    }

    /// Bytes for UDP: cut and flagged if too long.
    pub fn udp_bytes(&self, m: &RMsg, st: &Style, rng: &mut Rng) -> (Vec<u8>, RMsg) {
        let mut r2 = rng.clone();
        let b = encode_flat(m, &mut r2, st.compress);
        if st.cut_all {
            let mut cut = m.clone();
            cut.h.tc = true;
            cut.sec = [vec![], vec![], vec![]];
            return (encode(&cut), cut);
        }
        if b.len() <= 512 {
            return (b, m.clone());
        }
        let mut cut = m.clone();
        // Servers leave out additional records silently if they are optional.
        let optional = !m.sec[0].is_empty();
        if optional && !cut.sec[2].is_empty() {
            cut.sec[2].clear();
            let mut r2 = rng.clone();
            let b = encode_flat(&cut, &mut r2, st.compress);
            if b.len() <= 512 {
                return (b, cut);
            }
        }
        cut.h.tc = true;
        if !st.tc_partial {
            cut.sec = [vec![], vec![], vec![]];
        }
        // Keep the longest beginning that fits.
        let all: Vec<(usize, RRec)> = cut.sec.iter().enumerate().flat_map(|(i, s)| s.iter().map(move |r| (i, r.clone()))).collect();
        let first = |k: usize| {
            let mut x = cut.clone();
            x.sec = [vec![], vec![], vec![]];
            for (s, r) in all.iter().take(k) {
                x.sec[*s].push(r.clone());
            }
            let mut r2 = rng.clone();
            (encode_flat(&x, &mut r2, st.compress), x)
        };
        // A record takes at least 11 bytes.
        let (mut lo, mut hi) = (0, all.len().min(50) + 1);
        while hi - lo > 1 {
            let mid = (lo + hi) / 2;
            if first(mid).0.len() <= 512 {
                lo = mid;
            } else {
                hi = mid;
            }
        }
        first(lo)
    }

    fn derive(&mut self, dst: Ip, q: &RQ, tcp: bool) -> (Rng, u32) {
        let e = self.attempts.entry((dst, lower(&q.name), q.qtype)).or_insert(0);
        if !tcp {
            *e += 1;
        }
        let n = *e;
        let s = mix(mix(self.seed, fnv(&dst)), mix(fnv(text(&lower(&q.name)).as_bytes()), (q.qtype as u64) << 32 | (n as u64) << 1 | tcp as u64));
        (Rng::new(s), n)
    }

    fn tag(&mut self, from: Ip, m: &RMsg) -> u64 {
        let t = self.next_tag;
        self.next_tag += 1;
        self.pending.insert(t, (from, m.clone()));
        t
    }

    /// Records of lies.
    fn forged(&mut self, q: &RQ, h: &RHdr, rng: &mut Rng) -> RMsg {
        let mut m = RMsg { h: RHdr { id: h.id, qr: true, aa: true, ra: true, rd: h.rd, ..Default::default() }, q: vec![q.clone()], ..Default::default() };
        match rng.below(4) {
            0 => {
                // A lie about a parent, with an address to ask next.
                let z = if q.name.is_empty() { q.name.clone() } else { q.name[rng.below(q.name.len())..].to_vec() };
                let ns = labels("ns.liar.");
                m.sec[1].push(RRec { name: z, ttl: 600_000, data: RData::Name(NS, ns.clone()) });
                m.sec[2].push(RRec { name: ns, ttl: 600_000, data: RData::A([66, 6, 6, 6]) });
                m.h.aa = false;
            }
            1 => {
                m.h.rcode = 3;
            }
            2 => {
                m.sec[0].push(RRec { name: q.name.clone(), ttl: 600_000, data: RData::Name(CNAME, labels("liar.")) });
            }
            _ => {
                let mut pool = vec![labels("liar.")];
                let d = match q.qtype {
                    A => RData::A([66, 6, 6, 6]),
                    t if TYPES.contains(&t) => gen_data(rng, t, &mut pool),
                    _ => RData::A([66, 6, 6, 6]),
                };
                m.sec[0].push(RRec { name: q.name.clone(), ttl: 600_000, data: d });
            }
        }
        m
    }

    /// A datagram that must not count; whether it reaches a connected socket.
    fn junk_dg(&mut self, dst: Ip, h: &RHdr, q: &RQ, rng: &mut Rng) -> Dg {
        let mut m = self.forged(q, h, rng);
        let mut from = dns_addr(dst);
        let kinds = if self.junk.off_path_only { 3 } else { 12 };
        let kind = rng.below(kinds);
        let mut bytes = None;
        match kind {
            0 => {
                // From elsewhere.
                let other = *rng.pick(&[[66, 6, 6, 6], [127, 0, 0, 1], ROOTS[0], [10, 0, 0, 1]]);
                from = dns_addr(if other == dst { [66, 6, 6, 7] } else { other });
            }
            1 => from.set_port(*rng.pick(&[54, 5353, 1, 65535, 0x3500])),
            2 => {
                from = dns_addr([dst[0], dst[1], dst[2], dst[3] ^ 1]);
            }
            3 => m.h.id = h.id ^ (1 << rng.below(16)),
            4 => {
                m.h.id = *rng.pick(&[0, 1, 0xffff, h.id.swap_bytes(), h.id.wrapping_add(1), h.id.wrapping_sub(1), !h.id]);
                if m.h.id == h.id {
                    m.h.id ^= 0x55;
                }
            }
            5 => m.h.qr = false,
            6 => {
                // Question about another name.
                let n = &mut m.q[0].name;
                match rng.below(4) {
                    0 if !n.is_empty() => {
                        n.remove(0);
                    }
                    1 => n.insert(0, b"x".to_vec()),
                    2 => *n = labels("other.example."),
                    _ => {
                        if let Some(l) = n.last_mut() {
                            let k = l.len() - 1;
                            l[k] = if l[k].eq_ignore_ascii_case(&b'a') { b'b' } else { b'a' };
                        } else {
                            *n = labels("other.");
                        }
                    }
                }
            }
            7 => {
                let t = m.q[0].qtype;
                m.q[0].qtype = *rng.pick(&TYPES.iter().copied().filter(|x| *x != t).collect::<Vec<_>>());
            }
            8 => m.q.clear(),
            9 => {
                let extra = RQ { name: labels("second."), qtype: A };
                if rng.bool() {
                    m.q.push(extra);
                } else {
                    m.q.insert(0, extra);
                }
            }
            10 => {
                let n = rng.below(40);
                bytes = Some(rng.bytes(n));
            }
            _ => {
                // The query itself, or only its header, sent back.
                let mut e = RMsg { h: h.clone(), q: vec![q.clone()], ..Default::default() };
                if rng.bool() {
                    e.q.clear();
                }
                bytes = Some(encode(&e));
            }
        }
        self.count(match kind {
            0 => "junk: other address",
            1 => "junk: other port",
            2 => "junk: neighbour address",
            3 | 4 => "junk: other id",
            5 => "junk: not a response",
            6 => "junk: other name",
            7 => "junk: other type",
            8 => "junk: no question",
            9 => "junk: two questions",
            10 => "junk: garbage",
            _ => "junk: echo",
        });
        Dg { delay: rng.below(3) as u64 * MS, from, what: Ok(bytes.unwrap_or_else(|| encode(&m))), tag: 0 }
    }

    fn back(&mut self, dst: Ip, m: &RMsg, bytes: Vec<u8>, delay: u64) -> Dg {
        let tag = self.tag(dst, m);
        Dg { delay, from: dns_addr(dst), what: Ok(bytes), tag }
    }

    fn faulty(&mut self, f: &Fault, srv: &Srv, dst: Ip, h: &RHdr, q: &RQ, m: RMsg, attempt: u32, rng: &mut Rng) -> Udp {
        let d = rng.range(srv.lat.0 as usize, srv.lat.1 as usize) as u64;
        let mut m = m;
        match f {
            Fault::None => {}
            Fault::Flaky(n) => {
                if attempt % n != 0 {
                    return Udp::Back(vec![]);
                }
            }
            Fault::Fickle(n) => {
                if attempt % n != 0 {
                    let f = match rng.below(11) {
                        0 => Fault::Silent,
                        1 => Fault::Refused,
                        2 => Fault::Garbage,
                        3 => Fault::Short,
                        4 => Fault::WrongId,
                        5 => Fault::WrongName,
                        6 => Fault::WrongType,
                        7 => Fault::NoQuestion,
                        8 => Fault::TwoQuestions,
                        9 => Fault::NotResponse,
                        _ => Fault::Cut,
                    };
                    return self.faulty(&f, srv, dst, h, q, m, attempt, rng);
                }
            }
            Fault::Silent => return Udp::Back(vec![]),
            Fault::Refused => {
                return Udp::Back(vec![Dg { delay: d, from: dns_addr(dst), what: Err(libc::ECONNREFUSED), tag: 0 }]);
            }
            Fault::Rcode(c) => {
                m.h.rcode = *c;
                m.h.aa = false;
                m.sec = Default::default();
            }
            Fault::Garbage => {
                let n = rng.range(0, 600);
                let mut b = rng.bytes(n);
                if n > 2 && rng.bool() {
                    b[..2].copy_from_slice(&h.id.to_be_bytes());
                }
                return Udp::Back(vec![Dg { delay: d, from: dns_addr(dst), what: Ok(b), tag: 0 }]);
            }
            Fault::Short => {
                let b = encode(&m);
                let n = rng.below(12);
                return Udp::Back(vec![Dg { delay: d, from: dns_addr(dst), what: Ok(b[..n].to_vec()), tag: 0 }]);
            }
            Fault::WrongId => m.h.id = h.id.wrapping_add(rng.range(1, 65535) as u16),
            Fault::WrongName => m.q[0].name = labels("not.asked."),
            Fault::WrongType => m.q[0].qtype = if q.qtype == A { TXT } else { A },
            Fault::NoQuestion => m.q.clear(),
            Fault::TwoQuestions => m.q.push(RQ { name: labels("x."), qtype: A }),
            Fault::NotResponse => m.h.qr = false,
            Fault::Empty(aa) => {
                m.h.aa = *aa;
                m.h.rcode = 0;
                m.sec = Default::default();
            }
            Fault::NxNoAa => {
                m.h.aa = false;
                m.h.rcode = 3;
                m.sec = Default::default();
                if rng.bool() {
                    let mut n = q.name.clone();
                    if !n.is_empty() {
                        n.remove(0);
                    }
                    m.sec[1].push(gen_soa(&if rng.bool() { n } else { vec![] }, 60));
                }
            }
            Fault::Lame(k) => {
                m.h.aa = false;
                m.h.rcode = 0;
                m.sec = Default::default();
                if *k == 0 {
                    for i in 0..13u8 {
                        m.sec[1].push(RRec { name: vec![], ttl: 3600, data: RData::Name(NS, labels(&format!("{}.root-servers.net.", (b'a' + i) as char))) });
                    }
                } else if let Some(z) = self.best_zone(&srv.zones, &q.name) {
                    self.referral(&mut m, z, z, &srv.style);
                }
            }
            Fault::Unrelated => {
                m.h.rcode = 0;
                m.sec = Default::default();
                let n = labels("unrelated.example.");
                m.sec[0].push(RRec { name: n.clone(), ttl: 3600, data: RData::A([66, 1, 1, 1]) });
                m.sec[0].push(RRec { name: labels("also.unrelated."), ttl: 3600, data: RData::Name(CNAME, n.clone()) });
                m.sec[1].push(RRec { name: n.clone(), ttl: 3600, data: RData::Name(NS, labels("ns.unrelated.example.")) });
                m.sec[2].push(RRec { name: labels("ns.unrelated.example."), ttl: 3600, data: RData::A([66, 1, 1, 1]) });
            }
            Fault::TcDead(_) => {
                m.h.tc = true;
                let mut part = std::mem::take(&mut m.sec[0]);
                m.sec = Default::default();
                if srv.style.tc_partial && !part.is_empty() {
                    // Some of the records, never all.
                    let n = rng.below(part.len());
                    part.truncate(n);
                    m.sec[0] = part;
                }
            }
            Fault::SendErr(e) => return Udp::SendErr(*e),
            Fault::ConnectErr(_) => return Udp::Back(vec![]),
            Fault::Cut => {
                let b = encode(&m);
                let n = rng.range(12, b.len() - 1);
                return Udp::Back(vec![Dg { delay: d, from: dns_addr(dst), what: Ok(b[..n].to_vec()), tag: 0 }]);
            }
        }
        let mut st = srv.style.clone();
        if m.sec.iter().all(|s| s.is_empty()) {
            st.compress = 0;
        }
        let (bytes, cut) = self.udp_bytes(&m, &st, rng);
        if cut.h.tc {
            self.count("truncated replies");
        }
        let mut v = vec![self.back(dst, &cut, bytes.clone(), d)];
        if rng.one_in(20) {
            // Duplicates happen.
            v.push(self.back(dst, &cut, bytes, d + MS));
        }
        Udp::Back(v)
    }

    fn note(&mut self, now: u64, dst: SocketAddr, bytes: &[u8], tcp: bool) -> Option<(Ip, RHdr, RQ)> {
        let dec = decode_strict(bytes);
        let q = match &dec {
            Ok(d) if d.msg.q.len() == 1 && d.used == bytes.len() && d.skipped == 0 => Some((d.msg.h.clone(), d.msg.q[0].clone())),
            _ => None,
        };
        self.sent.push(Sent { t: now, dst, bytes: bytes.to_vec(), tcp, q: q.clone() });
        let ip = ip_of(&dst);
        match (q, ip) {
            (Some((h, q)), Some(ip)) if dst.port() == 53 => {
                // The whole shape of a query.
                if let Ok(d) = dec {
                    let ok = !h.qr && h.op == 0 && !h.aa && !h.tc && !h.ra && h.z == 0 && h.rcode == 0 && d.msg.sec.iter().all(|s| s.is_empty());
                    if !ok {
                        self.problems.push(format!("malformed query: {:?}", d.msg));
                    }
                }
                Some((ip, h, q))
            }
            _ => {
                self.problems.push(format!("malformed query to {}: {}", dst, hexs(bytes)));
                None
            }
        }
    }
}

impl Far for World {
    fn udp(&mut self, now: u64, dst: SocketAddr, bytes: &[u8]) -> Udp {
        let (ip, h, q) = match self.note(now, dst, bytes, false) {
            Some(x) => x,
            None => return Udp::Back(vec![]),
        };
        let (mut rng, attempt) = self.derive(ip, &q, false);
        if let Some(mut c) = self.custom.take() {
            let a = c(self, now, ip, &h, &q, attempt, false);
            self.custom = Some(c);
            if let Some(a) = a {
                let d = rng.range(1, 30) as u64 * MS;
                return match a {
                    Act::Silence => Udp::Back(vec![]),
                    Act::Err(e) => Udp::Back(vec![Dg { delay: d, from: dns_addr(ip), what: Err(e), tag: 0 }]),
                    Act::Raw(b) => Udp::Back(vec![Dg { delay: d, from: dns_addr(ip), what: Ok(b), tag: 0 }]),
                    Act::Pieces(_) => Udp::Back(vec![]),
                    Act::Msg(m) => {
                        let st = Style { compress: 60, tc_partial: true, ..Default::default() };
                        let (b, cut) = self.udp_bytes(&m, &st, &mut rng);
                        Udp::Back(vec![self.back(ip, &cut, b, d)])
                    }
                };
            }
        }
        let srv = match self.servers.get(&ip) {
            Some(s) => s.clone(),
            None => return Udp::Back(vec![]),
        };
        let m = self.honest(&srv.zones, &srv.style, &h, &q, &mut rng);
        let mut r = self.faulty(&srv.fault, &srv, ip, &h, &q, m, attempt, &mut rng);
        if self.junk.pct > 0 {
            if let Udp::Back(v) = &mut r {
                let mut n = 0;
                while n < 4 && rng.pct(self.junk.pct) {
                    let j = self.junk_dg(ip, &h, &q, &mut rng);
                    v.insert(0, j);
                    n += 1;
                }
            }
        }
        if let Udp::Back(v) = &r {
            if v.iter().any(|d| matches!(&d.what, Ok(b) if b.len() > 2 && b[2] & 2 != 0)) {
                self.cut.insert(ip);
            }
        }
        r
    }

    fn udp_connect(&mut self, _now: u64, dst: SocketAddr) -> i32 {
        match ip_of(&dst).and_then(|ip| self.servers.get(&ip)) {
            Some(s) => match s.fault {
                Fault::ConnectErr(e) => e,
                _ => 0,
            },
            None => 0,
        }
    }

    fn connect(&mut self, _now: u64, dst: SocketAddr) -> Conn {
        let ip = match ip_of(&dst) {
            Some(ip) if dst.port() == 53 => ip,
            _ => {
                self.problems.push(format!("stream to {}", dst));
                return Conn::Refused;
            }
        };
        self.count("streams");
        if let Some(m) = self.tcp_modes.get(&ip) {
            match m {
                0 => return Conn::Refused,
                1 => return Conn::Hole,
                _ => {}
            }
        }
        if self.servers.get(&ip).is_some_and(|s| s.style.udp_only) && !self.cut.contains(&ip) {
            self.count("streams without a reason");
            return if ip[3] & 1 == 0 { Conn::Refused } else { Conn::Hole };
        }
        match self.servers.get(&ip) {
            None => {
                if self.custom.is_some() {
                    Conn::Ok(MS)
                } else {
                    Conn::Hole
                }
            }
            Some(s) => match s.fault {
                Fault::TcDead(0) | Fault::Refused => Conn::Refused,
                Fault::TcDead(1) | Fault::Silent | Fault::ConnectErr(_) | Fault::SendErr(_) => Conn::Hole,
                _ => Conn::Ok(s.lat.0),
            },
        }
    }

    fn tcp(&mut self, now: u64, dst: SocketAddr, all: &[u8], new: usize) -> Vec<(u64, Piece, u64)> {
        if all.len() < 2 {
            return vec![];
        }
        let want = 2 + ((all[0] as usize) << 8 | all[1] as usize);
        if all.len() > want {
            self.problems.push("more bytes on a stream than its length prefix says".into());
        }
        if all.len() < want || all.len() - new >= want {
            return vec![];
        }
        let (ip, h, q) = match self.note(now, dst, &all[2..want], true) {
            Some(x) => x,
            None => return vec![],
        };
        let (mut rng, attempt) = self.derive(ip, &q, true);
        let mut fault = Fault::None;
        let mut lat = (MS, 5 * MS);
        let mut reply = None;
        if let Some(mut c) = self.custom.take() {
            let a = c(self, now, ip, &h, &q, attempt, true);
            self.custom = Some(c);
            match a {
                Some(Act::Msg(m)) => reply = Some(m),
                Some(Act::Raw(b)) => {
                    let mut x = (b.len() as u16).to_be_bytes().to_vec();
                    x.extend(b);
                    return vec![(MS, Piece::Data(x), 0)];
                }
                Some(Act::Pieces(p)) => return p.into_iter().map(|(d, p)| (d, p, 0)).collect(),
                Some(Act::Silence) => return vec![],
                Some(Act::Err(_)) => return vec![(MS, Piece::Reset, 0)],
                None => {}
            }
        }
        let st;
        let mut m = match reply {
            Some(m) => {
                st = Style { compress: 60, ..Default::default() };
                m
            }
            None => {
                let srv = match self.servers.get(&ip) {
                    Some(s) => s.clone(),
                    None => return vec![],
                };
                fault = srv.fault.clone();
                lat = srv.lat;
                st = srv.style.clone();
                self.honest(&srv.zones, &srv.style, &h, &q, &mut rng)
            }
        };
        match fault {
            Fault::TcDead(k) if k > 4 => {
                m = self.forged(&q, &h, &mut rng);
                twist(&mut m, &h, k as usize, &mut rng);
                self.count("stream replies to something else");
                let mut b = encode(&m);
                b.splice(0..0, (b.len() as u16).to_be_bytes());
                return vec![(lat.0, Piece::Data(b), 0)];
            }
            Fault::None | Fault::Flaky(_) | Fault::Fickle(_) if !self.junk.off_path_only && rng.pct(self.junk.pct) => {
                m = self.forged(&q, &h, &mut rng);
                let k = rng.range(5, 11);
                twist(&mut m, &h, k, &mut rng);
                self.count("junk: stream");
                let mut b = encode(&m);
                b.splice(0..0, (b.len() as u16).to_be_bytes());
                return vec![(lat.0, Piece::Data(b), 0)];
            }
            _ => {}
        }
        let body = encode_flat(&m, &mut rng.clone(), st.compress);
        let mut b = (body.len() as u16).to_be_bytes().to_vec();
        b.extend(&body);
        let d = rng.range(lat.0 as usize, lat.1 as usize) as u64;
        match fault {
            Fault::TcDead(2) => {
                let n = rng.below(b.len());
                b.truncate(n);
                let mut v = vec![(d, Piece::Data(b), 0)];
                match rng.below(3) {
                    0 => v.push((2 * d, Piece::Close, 0)),
                    1 => v.push((2 * d, Piece::Reset, 0)),
                    _ => {}
                }
                v.retain(|x| !matches!(&x.1, Piece::Data(d) if d.is_empty()));
                return v;
            }
            Fault::TcDead(3) => {
                let n = rng.range(2, 300);
                let mut g = rng.bytes(n);
                g[0] = 0;
                return vec![(d, Piece::Data(g), 0)];
            }
            Fault::TcDead(_) => return vec![(d, Piece::Close, 0)],
            _ => {}
        }
        self.count("stream replies");
        // Split anywhere.
        let tag = self.tag(ip, &m);
        let mut v = vec![];
        let mut at = 0;
        let mut t = d;
        let n = rng.range(1, 6);
        let mut cuts: Vec<usize> = (0..n).map(|_| rng.range(1, b.len())).collect();
        if rng.bool() {
            cuts.push(1);
        }
        if rng.bool() {
            cuts.push(2);
        }
        cuts.push(b.len());
        cuts.sort();
        cuts.dedup();
        let last = cuts.len() - 1;
        for (i, c) in cuts.into_iter().enumerate() {
            v.push((t, Piece::Data(b[at..c].to_vec()), if i == last { tag } else { 0 }));
            at = c;
            t += rng.below(3) as u64 * MS;
        }
        if rng.bool() {
            v.push((t, Piece::Close, 0));
        }
        v
    }

    fn delivered(&mut self, now: u64, tag: u64) {
        if let Some((from, msg)) = self.pending.remove(&tag) {
            self.got.push(Got { t: now, from, msg });
        }
    }
}

/// Turns a reply into one that does not answer the query.
fn twist(m: &mut RMsg, h: &RHdr, k: usize, rng: &mut Rng) {
    match k {
        5 | 11 => m.h.id = h.id ^ (1 << rng.below(16)),
        6 => {
            let n = &mut m.q[0].name;
            match rng.below(3) {
                0 if !n.is_empty() => {
                    n.remove(0);
                }
                1 => *n = labels("other.example."),
                _ => n.insert(0, b"x".to_vec()),
            }
        }
        7 => {
            let t = m.q[0].qtype;
            m.q[0].qtype = *rng.pick(&TYPES.iter().copied().filter(|x| *x != t).collect::<Vec<_>>());
        }
        8 => m.h.qr = false,
        9 => m.q.clear(),
        _ => m.q.push(RQ { name: labels("second."), qtype: A }),
    }
}

// ---------------------------------------------------------------- generation

fn gen_style(r: &mut Rng) -> Style {
    Style {
        chase: r.bool(),
        hints: r.pct(40),
        compress: *r.pick(&[0, 50, 100, 100]),
        extra_glue: r.pct(60),
        tc_partial: r.bool(),
        shuffle: r.pct(40),
        echo: r.bool(),
        soa: r.pct(85),
        ra: r.pct(20),
        split: r.pct(30),
        udp_only: r.pct(35),
        cut_all: r.pct(4),
    }
}

pub fn gen_soa(name: &RName, ttl: u32) -> RRec {
    let mut m = name.clone();
    m.insert(0, b"mname".to_vec());
    if wire_len(&m) > 255 {
        m = labels("m.");
    }
    RRec { name: name.clone(), ttl, data: RData::Soa { m: m.clone(), r: m, n: [1, 2, 3, 4, 300] } }
}

pub fn gen(r: &mut Rng, o: &GenOpt) -> World {
    let mut w = World::empty(r.u64());
    // Root.
    let rootns: Vec<RName> = (0..13u8).map(|i| labels(&format!("{}.root-servers.net.", (b'a' + i) as char))).collect();
    w.zones.push(Zn { name: vec![], parent: 0, nss: rootns, ns_ttl: 518400, ns_var: None, sib_glue: false, soa: gen_soa(&vec![], 86400), data: BTreeMap::new(), cuts: vec![], depth: 0 });
    for (i, ip) in ROOTS.iter().enumerate() {
        let n = w.zones[0].nss[i].clone();
        w.zones[0].data.insert(lower(&n), vec![RRec { name: n, ttl: 518400, data: RData::A(*ip) }]);
    }
    for ip in ROOTS {
        w.servers.insert(ip, Srv { zones: vec![0], style: gen_style(r), fault: Fault::None, lat: (MS, 40 * MS) });
    }
    let n = r.range(o.zones.0, o.zones.1);
    let mut tries = 0;
    while w.zones.len() <= n && tries < 200 {
        tries += 1;
        let parent = if w.zones.len() < 2 { 0 } else { r.below(w.zones.len()) };
        if w.zones[parent].depth >= o.depth {
            continue;
        }
        let mut name = w.zones[parent].name.clone();
        let skip = if r.one_in(6) { 2 } else { 1 };
        for _ in 0..skip {
            name.insert(0, gen_lbl(r));
        }
        add_zone(&mut w, r, o, parent, name);
    }
    if r.pct(o.siblings) {
        mutual(&mut w, r, o);
    }
    // Data.
    for z in 0..w.zones.len() {
        let k = if z == 0 { 1 } else { r.range(1, 5) };
        for _ in 0..k {
            let n = owner_in(&w, r, z);
            if let Some(n) = n {
                add_sets(&mut w, r, o, z, n);
            }
        }
    }
    for _ in 0..r.range(0, o.aliases) {
        add_alias(&mut w, r, o);
    }
    w
}

/// Two zones of one parent whose nameservers are each in the other one: only the
/// addresses the parent hands out lead anywhere.
fn mutual(w: &mut World, r: &mut Rng, o: &GenOpt) {
    let pairs: Vec<(usize, usize)> = (1..w.zones.len())
        .flat_map(|a| (a + 1..w.zones.len()).map(move |b| (a, b)))
        .filter(|(a, b)| w.zones[*a].parent == w.zones[*b].parent)
        .collect();
    if pairs.is_empty() {
        return;
    }
    let (a, b) = *r.pick(&pairs);
    for (x, y) in [(a, b), (b, a)] {
        w.zones[x].nss.clear();
        w.zones[x].sib_glue = true;
        for i in 0..r.range(1, 2) {
            let mut n = w.zones[y].name.clone();
            n.insert(0, format!("for{}-{}", x, i).into_bytes());
            attach_ns(w, r, o, x, n);
        }
    }
}

/// A name whose closest zone is z.
pub fn owner_in(w: &World, r: &mut Rng, z: usize) -> Option<RName> {
    for _ in 0..20 {
        let mut n = w.zones[z].name.clone();
        let k = *r.pick(&[0, 1, 1, 1, 1, 2, 3]);
        for _ in 0..k {
            n.insert(0, gen_lbl(r));
        }
        if wire_len(&n) <= 250 && w.zone_of(&n) == z && !n.is_empty() {
            return Some(n);
        }
    }
    None
}

fn has_alias(w: &World, z: usize, n: &RName) -> bool {
    w.zones[z].data.get(&lower(n)).map_or(false, |v| v.iter().any(|r| r.data.rtype() == CNAME))
}

pub fn gen_set(r: &mut Rng, o: &GenOpt, n: &RName, t: u16) -> Vec<RRec> {
    let ttl = gen_ttl(r, o.ttl);
    let mut pool = vec![n.clone(), labels("mx.example.")];
    let k = if r.pct(o.big) { r.range(8, 45) } else { *r.pick(&[1, 1, 1, 2, 2, 3, 5]) };
    let mut v: Vec<RRec> = vec![];
    let mut size = 0;
    for _ in 0..k {
        // Has to fit a message.
        if size > 20_000 {
            break;
        }
        let data = match t {
            A => RData::A([192, 0, 2 + r.below(3) as u8, r.u8()]),
            TXT => {
                let parts = r.range(1, 3);
                RData::Txt((0..parts).map(|_| { let l = r.range(0, 40); (0..l).map(|_| *r.pick(b"abc 123=;\"\\")).collect() }).collect())
            }
            HINFO => RData::Hinfo(format!("cpu{}", r.below(100)).into_bytes(), b"os".to_vec()),
            _ => gen_data(r, t, &mut pool),
        };
        if v.iter().any(|x| crate::zone::norm(x).data == crate::zone::norm(&RRec { name: n.clone(), ttl: 0, data: data.clone() }).data) {
            continue;
        }
        let ttl = if r.pct(o.mixed_ttl) { gen_ttl(r, o.ttl) } else { ttl };
        size += if let RData::Wks { ports, .. } = &data { 300 + ports.iter().max().map_or(0, |p| *p as usize / 8) } else { 300 };
        v.push(RRec { name: n.clone(), ttl, data });
    }
    v
}

fn add_sets(w: &mut World, r: &mut Rng, o: &GenOpt, z: usize, n: RName) {
    if has_alias(w, z, &n) {
        return;
    }
    for _ in 0..r.range(1, 3) {
        let t = *r.pick(&[A, A, A, MX, TXT, HINFO, PTR, WKS]);
        let there = w.zones[z].data.get(&lower(&n)).map_or(false, |v| v.iter().any(|x| x.data.rtype() == t));
        // Addresses of nameservers are set elsewhere.
        if there {
            continue;
        }
        let set = gen_set(r, o, &n, t);
        w.zones[z].data.entry(lower(&n)).or_default().extend(set);
    }
}

fn add_alias(w: &mut World, r: &mut Rng, o: &GenOpt) {
    let mut z = r.below(w.zones.len());
    let mut n = match owner_in(w, r, z) {
        Some(n) => n,
        None => return,
    };
    if r.one_in(4) {
        // Related to a name there is.
        let all: Vec<RName> = w.zones.iter().flat_map(|z| z.data.values().map(|v| v[0].name.clone())).collect();
        if !all.is_empty() {
            let m = r.pick(&all).clone();
            if let Some(m) = related(r, &m) {
                z = w.zone_of(&m);
                n = m;
            }
        }
    }
    if w.zones[z].data.contains_key(&lower(&n)) || name_eq(&n, &w.zones[z].name) {
        return;
    }
    let target = match r.below(10) {
        0 => {
            let z2 = r.below(w.zones.len());
            owner_in(w, r, z2).unwrap_or_else(|| labels("nowhere."))
        }
        1 => labels("no-such-tld."),
        2 => n.clone(),
        _ => {
            let all: Vec<RName> = w.zones.iter().flat_map(|z| z.data.values().map(|v| v[0].name.clone())).collect();
            if all.is_empty() {
                return;
            }
            r.pick(&all).clone()
        }
    };
    let target = if r.one_in(5) { random_case(r, &target) } else { target };
    let ttl = gen_ttl(r, o.ttl);
    w.zones[z].data.insert(lower(&n), vec![RRec { name: n, ttl, data: RData::Name(CNAME, target) }]);
}

/// A name above, below or next to another one.
pub fn related(r: &mut Rng, n: &RName) -> Option<RName> {
    let mut m = n.clone();
    match r.below(6) {
        0 if m.len() > 1 => {
            m.remove(0);
        }
        1 | 2 => m.insert(0, gen_lbl(r)),
        3 if !m.is_empty() => m[0].insert(0, b'x'),
        4 if !m.is_empty() => m[0].push(b'x'),
        5 if m.len() > 1 => m[0] = gen_lbl(r),
        _ => return None,
    }
    if wire_len(&m) > 250 || m.iter().any(|l| l.is_empty() || l.len() > 63) {
        return None;
    }
    Some(m)
}

/// Names a chain of aliases of k links ending at `end`, over random zones.
pub fn add_chain(w: &mut World, r: &mut Rng, k: usize, end: RName, ttl: u8) -> RName {
    let mut cur = end;
    for i in 0..k {
        for _ in 0..20 {
            let z = r.below(w.zones.len());
            let mut n = w.zones[z].name.clone();
            n.insert(0, format!("l{}-{}", i, r.below(1000)).into_bytes());
            let mut z = z;
            if r.one_in(3) {
                // Relatives of the name it leads to.
                if let Some(m) = related(r, &cur) {
                    z = w.zone_of(&m);
                    n = m;
                }
            }
            if name_eq(&n, &w.zones[z].name) {
                continue;
            }
            if wire_len(&n) > 250 || w.zones[z].data.contains_key(&lower(&n)) || w.zone_of(&n) != z {
                continue;
            }
            let t = gen_ttl(r, ttl);
            w.zones[z].data.insert(lower(&n), vec![RRec { name: n.clone(), ttl: t, data: RData::Name(CNAME, cur) }]);
            cur = n;
            break;
        }
    }
    cur
}

/// Adds a zone with nameservers; false if it does not fit.
pub fn add_zone(w: &mut World, r: &mut Rng, o: &GenOpt, parent: usize, name: RName) -> bool {
    if wire_len(&name) > 160 || w.zones.iter().any(|z| in_zone(&z.name, &name) && !z.name.is_empty()) {
        return false;
    }
    if w.zone_of(&name) != parent {
        return false;
    }
    if w.zones[parent].data.keys().any(|k| in_zone(k, &name)) {
        return false;
    }
    // Nor may it enclose the name of a nameserver that will be looked up elsewhere.
    let id = w.zones.len();
    let depth = w.zones[parent].depth + 1;
    let ns_ttl = gen_ttl(r, o.ns_ttl);
    let ns_var = if r.pct(o.mixed_ttl) { Some((r.u64(), o.ns_ttl)) } else { None };
    w.zones.push(Zn { name: name.clone(), parent, nss: vec![], ns_ttl, ns_var, sib_glue: false, soa: gen_soa(&name, ns_ttl), data: BTreeMap::new(), cuts: vec![], depth });
    w.zones[parent].cuts.push(id);
    let k = if r.one_in(8) { r.range(1, 9) } else { r.range(1, o.max_ns) };
    for i in 0..k {
        let oob = r.pct(o.oob) && id > 1;
        let ns: Option<RName> = if oob {
            // Another, earlier zone, neither above nor below.
            let c: Vec<usize> = (1..id).filter(|j| !in_zone(&name, &w.zones[*j].name)).collect();
            if c.is_empty() {
                None
            } else {
                let j = *r.pick(&c);
                if r.bool() && !w.zones[j].nss.is_empty() {
                    // A provider's existing nameserver.
                    let n = r.pick(&w.zones[j].nss).clone();
                    if in_zone(&n, &name) {
                        None
                    } else {
                        Some(n)
                    }
                } else {
                    let mut n = w.zones[j].name.clone();
                    n.insert(0, format!("ns{}-{}", id, i).into_bytes());
                    Some(n)
                }
            }
        } else {
            match r.below(8) {
                0 => Some(name.clone()),
                1 if parent != 0 => {
                    let mut n = w.zones[parent].name.clone();
                    n.insert(0, format!("sib{}-{}", id, i).into_bytes());
                    Some(n)
                }
                2 => {
                    let mut n = name.clone();
                    n.insert(0, b"dns".to_vec());
                    n.insert(0, format!("N{}", i).into_bytes());
                    Some(n)
                }
                _ => {
                    let mut n = name.clone();
                    n.insert(0, format!("ns{}", i).into_bytes());
                    Some(n)
                }
            }
        };
        if let Some(ns) = ns {
            attach_ns(w, r, o, id, ns);
        }
    }
    if w.zones[id].nss.is_empty() {
        let mut n = name.clone();
        n.insert(0, b"ns".to_vec());
        attach_ns(w, r, o, id, n);
    }
    true
}

/// Makes `ns` a nameserver of zone z, giving it addresses if it has none.
pub fn attach_ns(w: &mut World, r: &mut Rng, o: &GenOpt, z: usize, ns: RName) {
    if w.zones[z].nss.iter().any(|n| name_eq(n, &ns)) {
        return;
    }
    let home = w.zone_of(&ns);
    if has_alias(w, home, &ns) {
        return;
    }
    let have = w.addrs(&ns);
    let ips: Vec<Ip> = if have.is_empty() {
        let k = if r.one_in(5) { 2 } else { 1 };
        let ttl = gen_ttl(r, o.ns_ttl);
        let mut v = vec![];
        for _ in 0..k {
            let ip = w.fresh_ip();
            w.zones[home].data.entry(lower(&ns)).or_default().push(RRec { name: ns.clone(), ttl, data: RData::A(ip) });
            v.push(ip);
        }
        v
    } else {
        have.iter().map(|a| if let RData::A(ip) = a.data { ip } else { unreachable!() }).collect()
    };
    for ip in ips {
        let lat = (MS, r.range(2, 80) as u64 * MS);
        let e = w.servers.entry(ip).or_insert_with(|| Srv { zones: vec![], style: gen_style(r), fault: Fault::None, lat });
        if !e.zones.contains(&z) {
            e.zones.push(z);
        }
    }
    w.zones[z].nss.push(ns);
}

/// A question worth asking in this world.
pub fn gen_question(w: &World, r: &mut Rng) -> RQ {
    let z = r.below(w.zones.len());
    let zn = &w.zones[z];
    let mut qtype = *r.pick(&[A, A, A, A, NS, CNAME, SOA, MX, TXT, HINFO, PTR, WKS]);
    let mut name = match r.below(12) {
        0 => zn.name.clone(),
        1 => {
            let mut n = zn.name.clone();
            for _ in 0..r.range(1, 4) {
                n.insert(0, gen_lbl(r));
            }
            n
        }
        2 if !zn.nss.is_empty() => r.pick(&zn.nss).clone(),
        3 => vec![gen_lbl(r)],
        _ => {
            let all: Vec<&Vec<RRec>> = w.zones.iter().flat_map(|z| z.data.values()).collect();
            if all.is_empty() {
                zn.name.clone()
            } else {
                let v = *r.pick(&all);
                if r.pct(75) {
                    qtype = r.pick(v).data.rtype();
                    if qtype == CNAME && r.pct(80) {
                        qtype = A;
                    }
                }
                let mut n = v[0].name.clone();
                match r.below(10) {
                    0 => n.insert(0, gen_lbl(r)),
                    1 => {
                        n.remove(0);
                    }
                    _ => {}
                }
                n
            }
        }
    };
    // Root servers' own names have no zone here.
    if in_zone(&name, &labels("root-servers.net.")) || wire_len(&name) > 255 {
        name = zn.name.clone();
    }
    if r.one_in(6) {
        name = random_case(r, &name);
    }
    RQ { name, qtype }
}

/// Text of a world, for reports.
pub fn show(w: &World) -> String {
    let mut s = String::new();
    for (i, z) in w.zones.iter().enumerate() {
        if i > 0 {
            s.push_str(&format!("zone {} {} (parent {}, ns ttl {}) ns:", i, text(&z.name), z.parent, z.ns_ttl));
            for n in &z.nss {
                s.push_str(&format!(" {}", text(n)));
            }
            s.push('\n');
        }
        for v in z.data.values() {
            for r in v.iter().take(4) {
                s.push_str(&format!("   {} {} {:?}\n", text(&r.name), r.ttl, brief(&r.data)));
            }
        }
    }
    for (ip, sv) in &w.servers {
        if !is_root(ip) || sv.fault != Fault::None {
            s.push_str(&format!("server {:?} zones {:?} {:?}\n", ip, sv.zones, sv.fault));
        }
    }
    clip(&s, 3500)
}

pub fn brief(d: &RData) -> String {
    match d {
        RData::A(a) => format!("A {}.{}.{}.{}", a[0], a[1], a[2], a[3]),
        RData::Name(t, n) => format!("{} {}", if *t == CNAME { "CNAME" } else if *t == NS { "NS" } else { "PTR" }, text(n)),
        d => clip(&format!("{:?}", d), 60),
    }
}

/// The upstream conversation since `from`.
pub fn show_log(w: &World, from: usize) -> String {
    let from = if std::env::var("MON_ALL").is_ok() { 0 } else { from };
    let mut s = String::new();
    let t0 = w.sent.get(from).map_or(u64::MAX, |x| x.t);
    let mut lines: Vec<(u64, u8, String)> = vec![];
    for x in w.sent.iter().skip(from).take(40) {
        let q = x.q.as_ref().map_or("?".into(), |(_, q)| format!("{} {}", text(&q.name), q.qtype));
        lines.push((x.t, 0, format!("-> {}{} {}", x.dst, if x.tcp { " tcp" } else { "" }, q)));
    }
    for g in w.got.iter().filter(|g| g.t >= t0).take(40) {
        let h = &g.msg.h;
        let mut l = format!("<- {:?} rcode {}{}{}", g.from, h.rcode, if h.aa { " aa" } else { "" }, if h.tc { " tc" } else { "" });
        for (k, x) in ["an", "ns", "ar"].iter().zip(&g.msg.sec) {
            if !x.is_empty() {
                l.push_str(&format!(" {}:", k));
            }
            for r in x.iter().take(5) {
                l.push_str(&format!(" {} {} {};", text(&r.name), r.ttl, clip(&brief(&r.data), 40)));
            }
        }
        lines.push((g.t, 1, clip(&l, 600)));
    }
    lines.sort();
    for (t, _, l) in lines {
        s.push_str(&format!("  t={:.3} {}\n", t as f64 / 1e9, l));
    }
    s
}
