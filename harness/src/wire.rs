//! Independent model of RFC 1035 messages: types, encoder, three-valued decoder, generators,
//! and conversion from/to the crate's types.
use crate::util::*;
use ariadne_dns::shared::dns;

/// Labels of a name, the root being the empty list.
pub type RName = Vec<Vec<u8>>;

pub const A: u16 = 1;
pub const NS: u16 = 2;
pub const CNAME: u16 = 5;
pub const SOA: u16 = 6;
pub const WKS: u16 = 11;
pub const PTR: u16 = 12;
pub const HINFO: u16 = 13;
pub const MX: u16 = 15;
pub const TXT: u16 = 16;
pub const TYPES: [u16; 9] = [A, NS, CNAME, SOA, WKS, PTR, HINFO, MX, TXT];
/// Types the implementation knows and does not support.
pub const UNSUPPORTED: [u16; 11] = [3, 4, 7, 8, 9, 10, 14, 252, 253, 254, 255];

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum RData {
    A([u8; 4]),
    /// NS, CNAME or PTR.
    Name(u16, RName),
    Soa { m: RName, r: RName, n: [u32; 5] },
    Wks { addr: [u8; 4], proto: u8, ports: Vec<u32> },
    Hinfo(Vec<u8>, Vec<u8>),
    Mx(u16, RName),
    Txt(Vec<Vec<u8>>),
}

impl RData {
    pub fn rtype(&self) -> u16 {
        match self {
            RData::A(_) => A,
            RData::Name(t, _) => *t,
            RData::Soa { .. } => SOA,
            RData::Wks { .. } => WKS,
            RData::Hinfo(..) => HINFO,
            RData::Mx(..) => MX,
            RData::Txt(_) => TXT,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct RRec {
    pub name: RName,
    pub ttl: u32,
    pub data: RData,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct RQ {
    pub name: RName,
    pub qtype: u16,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct RHdr {
    pub id: u16,
    pub qr: bool,
    pub op: u8,
    pub aa: bool,
    pub tc: bool,
    pub rd: bool,
    pub ra: bool,
    pub z: u8,
    pub rcode: u8,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct RMsg {
    pub h: RHdr,
    pub q: Vec<RQ>,
    pub sec: [Vec<RRec>; 3],
}

// ---------------------------------------------------------------- names

pub fn text(n: &RName) -> String {
    if n.is_empty() {
        return ".".into();
    }
    let mut s = String::new();
    for l in n {
        s.push_str(&String::from_utf8_lossy(l));
        s.push('.');
    }
    s
}

/// Splits legal absolute text (no checks).
pub fn labels(s: &str) -> RName {
    if s == "." {
        return vec![];
    }
    s.trim_end_matches('.').split('.').map(|l| l.as_bytes().to_vec()).collect()
}

pub fn lower(n: &RName) -> RName {
    n.iter().map(|l| l.to_ascii_lowercase()).collect()
}

pub fn wire_len(n: &RName) -> usize {
    n.iter().map(|l| l.len() + 1).sum::<usize>() + 1
}

pub fn label_ok(l: &[u8]) -> bool {
    (1..=63).contains(&l.len())
        && l.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-')
        && l[0] != b'-'
        && l[l.len() - 1] != b'-'
}

pub fn name_ok(n: &RName) -> bool {
    wire_len(n) <= 255 && n.iter().all(|l| label_ok(l))
}

/// Is this text a legal absolute name?
pub fn text_ok(s: &str) -> bool {
    if s == "." {
        return true;
    }
    if !s.ends_with('.') || s.is_empty() {
        return false;
    }
    let body = &s[..s.len() - 1];
    let n: RName = body.split('.').map(|l| l.as_bytes().to_vec()).collect();
    name_ok(&n)
}

pub fn in_zone(n: &RName, z: &RName) -> bool {
    if z.len() > n.len() {
        return false;
    }
    let off = n.len() - z.len();
    (0..z.len()).all(|i| n[off + i].eq_ignore_ascii_case(&z[i]))
}

pub fn name_eq(a: &RName, b: &RName) -> bool {
    a.len() == b.len() && in_zone(a, b)
}

// ---------------------------------------------------------------- encoder

pub fn put_name(out: &mut Vec<u8>, n: &RName) {
    for l in n {
        out.push(l.len() as u8);
        out.extend_from_slice(l);
    }
    out.push(0);
}

fn p16(out: &mut Vec<u8>, v: u16) {
    out.extend_from_slice(&v.to_be_bytes());
}
fn p32(out: &mut Vec<u8>, v: u32) {
    out.extend_from_slice(&v.to_be_bytes());
}

pub fn put_rdata(out: &mut Vec<u8>, d: &RData, put: &mut dyn FnMut(&mut Vec<u8>, &RName)) {
    match d {
        RData::A(a) => out.extend_from_slice(a),
        RData::Name(_, n) => put(out, n),
        RData::Soa { m, r, n } => {
            put(out, m);
            put(out, r);
            for v in n {
                p32(out, *v);
            }
        }
        RData::Wks { addr, proto, ports } => {
            out.extend_from_slice(addr);
            out.push(*proto);
            if let Some(max) = ports.iter().max() {
                let mut map = vec![0u8; *max as usize / 8 + 1];
                for p in ports {
                    map[*p as usize / 8] |= 0x80 >> (p % 8);
                }
                out.extend(map);
            }
        }
        RData::Hinfo(a, b) => {
            for s in [a, b] {
                out.push(s.len() as u8);
                out.extend_from_slice(s);
            }
        }
        RData::Mx(p, n) => {
            p16(out, *p);
            put(out, n);
        }
        RData::Txt(v) => {
            for s in v {
                out.push(s.len() as u8);
                out.extend_from_slice(s);
            }
        }
    }
}

pub fn put_header(out: &mut Vec<u8>, h: &RHdr, counts: [u16; 4]) {
    p16(out, h.id);
    out.push((h.qr as u8) << 7 | (h.op & 15) << 3 | (h.aa as u8) << 2 | (h.tc as u8) << 1 | h.rd as u8);
    out.push((h.ra as u8) << 7 | (h.z & 7) << 4 | (h.rcode & 15));
    for c in counts {
        p16(out, c);
    }
}

pub fn put_q(out: &mut Vec<u8>, q: &RQ) {
    put_name(out, &q.name);
    p16(out, q.qtype);
    p16(out, 1);
}

pub fn put_rec(out: &mut Vec<u8>, r: &RRec) {
    put_rec_with(out, r, &mut |o, n| put_name(o, n));
}

pub fn put_rec_with(out: &mut Vec<u8>, r: &RRec, put: &mut dyn FnMut(&mut Vec<u8>, &RName)) {
    put(out, &r.name);
    p16(out, r.data.rtype());
    p16(out, 1);
    p32(out, r.ttl);
    let at = out.len();
    p16(out, 0);
    put_rdata(out, &r.data, put);
    let len = (out.len() - at - 2) as u16;
    out[at..at + 2].copy_from_slice(&len.to_be_bytes());
}

pub fn counts(m: &RMsg) -> [u16; 4] {
    [m.q.len() as u16, m.sec[0].len() as u16, m.sec[1].len() as u16, m.sec[2].len() as u16]
}

pub fn encode(m: &RMsg) -> Vec<u8> {
    let mut out = vec![];
    put_header(&mut out, &m.h, counts(m));
    for q in &m.q {
        put_q(&mut out, q);
    }
    for s in &m.sec {
        for r in s {
            put_rec(&mut out, r);
        }
    }
    out
}

/// Compressor: remembers where names (suffixes) were written.
pub struct Compressor {
    /// Offset, and how many pointers follow from there.
    seen: std::collections::HashMap<u128, Vec<(usize, usize)>>,
    pub jumps: usize,
    /// Never point at a pointer, nor through many.
    pub flat: bool,
}

impl Compressor {
    pub fn new() -> Self {
        Compressor { seen: Default::default(), jumps: 0, flat: false }
    }
    /// Writes a name at the end of `out`, compressing with probability pct.
    pub fn put(&mut self, out: &mut Vec<u8>, n: &RName, rng: &mut Rng, pct: usize) {
        let mut fresh: Vec<(usize, usize)> = vec![];
        let mut depth = 0;
        // Keys of the suffixes.
        let mut keys = vec![1u128; n.len() + 1];
        for i in (0..n.len()).rev() {
            let k = keys[i + 1];
            let (a, b) = (mix(k as u64, fnv(&n[i])), mix((k >> 64) as u64 ^ 0x5bd1, fnv(&n[i]).rotate_left(17)));
            keys[i] = (b as u128) << 64 | a as u128;
        }
        for i in 0..=n.len() {
            let here = out.len();
            if rng.pct(pct) && (i < n.len() || rng.one_in(8)) {
                let c = match self.seen.get(&keys[i]) {
                    Some(c) => {
                        let x = *rng.pick(c);
                        if self.flat && x.1 >= 12 {
                            c.iter().copied().find(|x| x.1 < 12)
                        } else {
                            Some(x)
                        }
                    }
                    None => None,
                };
                if let Some((o, d)) = c {
                    out.push(0xc0 | (o >> 8) as u8);
                    out.push(o as u8);
                    depth = d + 1;
                    if !self.flat {
                        fresh.push((i, here));
                    }
                    self.jumps += 1;
                    break;
                }
            }
            fresh.push((i, here));
            if i < n.len() {
                out.push(n[i].len() as u8);
                out.extend_from_slice(&n[i]);
            } else {
                out.push(0);
            }
        }
        for (i, o) in fresh {
            if o < 0x4000 {
                self.seen.entry(keys[i]).or_default().push((o, depth));
            }
        }
    }
}

pub fn encode_compressed(m: &RMsg, rng: &mut Rng, pct: usize) -> Vec<u8> {
    encode_with(m, rng, pct, false)
}

/// As servers do it: no chains of bare pointers.
pub fn encode_flat(m: &RMsg, rng: &mut Rng, pct: usize) -> Vec<u8> {
    encode_with(m, rng, pct, true)
}

fn encode_with(m: &RMsg, rng: &mut Rng, pct: usize, flat: bool) -> Vec<u8> {
    let mut out = vec![];
    let mut c = Compressor::new();
    c.flat = flat;
    put_header(&mut out, &m.h, counts(m));
    for q in &m.q {
        c.put(&mut out, &q.name, rng, pct);
        p16(&mut out, q.qtype);
        p16(&mut out, 1);
    }
    for s in &m.sec {
        for r in s {
            put_rec_with(&mut out, r, &mut |o, n| c.put(o, n, rng, pct));
        }
    }
    out
}

/// Encoding with compression wherever possible, as real servers do.
pub fn encode_full(m: &RMsg) -> Vec<u8> {
    encode_compressed(m, &mut Rng::new(1), 100)
}

// ---------------------------------------------------------------- decoder

/// What a decoder must do with some bytes.
#[derive(Debug, Clone)]
pub enum Want {
    Accept(RMsg),
    Reject(&'static str),
    /// May reject; if it accepts, the result must be this.
    Either(&'static str, RMsg),
    /// May do anything that is a result.
    Any(&'static str),
}

struct Dec<'a> {
    b: &'a [u8],
    p: usize,
    soft: Option<&'static str>,
}

type D<T> = Result<T, &'static str>;

impl<'a> Dec<'a> {
    fn u8(&mut self) -> D<u8> {
        let v = *self.b.get(self.p).ok_or("end")?;
        self.p += 1;
        Ok(v)
    }
    fn u16(&mut self) -> D<u16> {
        Ok((self.u8()? as u16) << 8 | self.u8()? as u16)
    }
    fn u32(&mut self) -> D<u32> {
        Ok((self.u16()? as u32) << 16 | self.u16()? as u32)
    }
    fn take(&mut self, n: usize) -> D<Vec<u8>> {
        if self.p + n > self.b.len() {
            return Err("end");
        }
        let v = self.b[self.p..self.p + n].to_vec();
        self.p += n;
        Ok(v)
    }
    fn name(&mut self) -> D<RName> {
        let mut n: RName = vec![];
        let mut pos = self.p;
        let mut after = None;
        let mut jumps = 0;
        let mut len = 0;
        let mut visited: Vec<usize> = vec![];
        let mut illegal = false;
        loop {
            let l = *self.b.get(pos).ok_or("name end")? as usize;
            match l >> 6 {
                0 => {
                    if l == 0 {
                        pos += 1;
                        break;
                    }
                    let lab = self.b.get(pos + 1..pos + 1 + l).ok_or("label end")?;
                    if !label_ok(lab) {
                        illegal = true;
                    }
                    n.push(lab.to_vec());
                    len += l + 1;
                    if len + 1 > 255 {
                        return Err("name over 255 octets");
                    }
                    pos += 1 + l;
                }
                3 => {
                    let lo = *self.b.get(pos + 1).ok_or("pointer end")? as usize;
                    let t = (l & 63) << 8 | lo;
                    if after.is_none() {
                        after = Some(pos + 2);
                    }
                    if t >= self.b.len() {
                        return Err("pointer outside");
                    }
                    if visited.contains(&t) {
                        return Err("pointer loop");
                    }
                    visited.push(t);
                    if t >= pos {
                        self.soft = Some("forward pointer");
                    }
                    jumps += 1;
                    if jumps > 10 {
                        self.soft = Some("many jumps");
                    }
                    pos = t;
                }
                _ => return Err("reserved label type"),
            }
        }
        self.p = after.unwrap_or(pos);
        if illegal {
            return Err("illegal label");
        }
        Ok(n)
    }
    fn string(&mut self) -> D<Vec<u8>> {
        let n = self.u8()? as usize;
        let v = self.take(n)?;
        if std::str::from_utf8(&v).is_err() {
            self.soft = Some("non UTF-8 string");
        }
        Ok(v)
    }
    fn question(&mut self) -> D<Option<RQ>> {
        let before = self.p;
        let name = self.name();
        let name = match name {
            Ok(n) => n,
            Err("illegal label") => {
                // An unknown type with such a name may still be skipped.
                let (t, _) = (self.u16()?, self.u16()?);
                let _ = before;
                if !TYPES.contains(&t) && !UNSUPPORTED.contains(&t) {
                    self.soft = Some("illegal name of unknown type");
                    return Ok(None);
                }
                return Err("illegal label");
            }
            Err(e) => return Err(e),
        };
        let t = self.u16()?;
        let c = self.u16()?;
        if UNSUPPORTED.contains(&t) {
            return Err("unsupported type");
        }
        if !TYPES.contains(&t) {
            return Ok(None);
        }
        if c != 1 {
            return Err("class");
        }
        Ok(Some(RQ { name, qtype: t }))
    }
    fn record(&mut self) -> D<Option<RRec>> {
        let name = match self.name() {
            Ok(n) => Some(n),
            Err("illegal label") => None,
            Err(e) => return Err(e),
        };
        let t = self.u16()?;
        let c = self.u16()?;
        let ttl = self.u32()?;
        let len = self.u16()? as usize;
        let known = TYPES.contains(&t);
        if !known {
            if UNSUPPORTED.contains(&t) {
                return Err("unsupported type");
            }
            self.take(len)?;
            if name.is_none() {
                self.soft = Some("illegal name of unknown type");
            }
            return Ok(None);
        }
        let name = name.ok_or("illegal label")?;
        if c != 1 {
            return Err("class");
        }
        let start = self.p;
        let end = start + len;
        let data = match t {
            A => {
                if len != 4 {
                    return Err("A length");
                }
                let v = self.take(4)?;
                RData::A([v[0], v[1], v[2], v[3]])
            }
            NS | CNAME | PTR => RData::Name(t, self.name()?),
            SOA => {
                let m = self.name()?;
                let r = self.name()?;
                let mut n = [0; 5];
                for v in &mut n {
                    *v = self.u32()?;
                }
                RData::Soa { m, r, n }
            }
            WKS => {
                if len < 5 {
                    return Err("WKS length");
                }
                let a = self.take(4)?;
                let proto = self.u8()?;
                let map = self.take(len - 5)?;
                let mut ports = vec![];
                for (i, b) in map.iter().enumerate() {
                    for j in 0..8 {
                        if b & (0x80 >> j) != 0 {
                            ports.push((i * 8 + j) as u32);
                        }
                    }
                }
                RData::Wks { addr: [a[0], a[1], a[2], a[3]], proto, ports }
            }
            HINFO => RData::Hinfo(self.string()?, self.string()?),
            MX => RData::Mx(self.u16()?, self.name()?),
            TXT => {
                let mut v = vec![];
                if len == 0 {
                    self.soft = Some("empty TXT");
                }
                while self.p < end {
                    v.push(self.string()?);
                }
                RData::Txt(v)
            }
            _ => unreachable!(),
        };
        if self.p != end {
            return Err("rdata length");
        }
        Ok(Some(RRec { name, ttl, data }))
    }
}

pub fn decode_header(b: &[u8]) -> D<(RHdr, [u16; 4])> {
    if b.len() < 12 {
        return Err("header end");
    }
    let h = RHdr {
        id: (b[0] as u16) << 8 | b[1] as u16,
        qr: b[2] & 0x80 != 0,
        op: b[2] >> 3 & 15,
        aa: b[2] & 4 != 0,
        tc: b[2] & 2 != 0,
        rd: b[2] & 1 != 0,
        ra: b[3] & 0x80 != 0,
        z: b[3] >> 4 & 7,
        rcode: b[3] & 15,
    };
    let c = |i: usize| (b[i] as u16) << 8 | b[i + 1] as u16;
    let counts = [c(4), c(6), c(8), c(10)];
    if h.op > 2 {
        return Err("opcode");
    }
    if h.rcode > 5 {
        return Err("rcode");
    }
    Ok((h, counts))
}

pub struct Decoded {
    pub msg: RMsg,
    pub soft: Option<&'static str>,
    pub used: usize,
    pub skipped: usize,
}

pub fn decode_strict(b: &[u8]) -> D<Decoded> {
    let (h, c) = decode_header(b)?;
    if h.op != 0 {
        return Err("unsupported opcode");
    }
    let mut d = Dec { b, p: 12, soft: None };
    let mut m = RMsg { h, ..Default::default() };
    let mut skipped = 0;
    for _ in 0..c[0] {
        match d.question()? {
            Some(q) => m.q.push(q),
            None => skipped += 1,
        }
    }
    for s in 0..3 {
        for _ in 0..c[s + 1] {
            match d.record()? {
                Some(r) => m.sec[s].push(r),
                None => skipped += 1,
            }
        }
    }
    Ok(Decoded { msg: m, soft: d.soft, used: d.p, skipped })
}

pub fn decode(b: &[u8]) -> Want {
    match decode_strict(b) {
        Err("rdata length") => Want::Reject("rdata length"),
        Err(e) => Want::Reject(e),
        Ok(d) => {
            if let Some(s) = d.soft {
                Want::Either(s, d.msg)
            } else if d.used < b.len() {
                Want::Either("trailing bytes", d.msg)
            } else if d.msg.h.z != 0 {
                Want::Either("z bits", d.msg)
            } else {
                Want::Accept(d.msg)
            }
        }
    }
}

// ---------------------------------------------------------------- crate types

pub fn c_name(n: &RName) -> dns::Name {
    match dns::Name::from_string(&text(n)) {
        Ok(v) => v,
        Err(e) => panic!("/repo/src/ legal name refused: {} {:?}", text(n), e),
    }
}

pub fn r_name(n: &dns::Name) -> RName {
    labels(n.as_ref())
}

pub fn c_type(t: u16) -> dns::RecordType {
    dns::RecordType::from_num(t).unwrap()
}

pub fn c_rec(r: &RRec) -> dns::Record {
    let node = c_name(&r.name);
    let class = dns::Class::IN;
    let ttl = r.ttl;
    // The encoders do not use it.
    let mut rd = vec![];
    put_rdata(&mut rd, &r.data, &mut |o, n| put_name(o, n));
    let data_len = rd.len() as u16;
    match &r.data {
        RData::A(a) => dns::Record::A { node, class, ttl, data_len, address: *a },
        RData::Name(NS, n) => dns::Record::NS { node, class, ttl, data_len, name: c_name(n) },
        RData::Name(CNAME, n) => dns::Record::CNAME { node, class, ttl, data_len, name: c_name(n) },
        RData::Name(_, n) => dns::Record::PTR { node, class, ttl, data_len, name: c_name(n) },
        RData::Soa { m, r, n } => dns::Record::SOA {
            node,
            class,
            ttl,
            data_len,
            ns_name: c_name(m),
            ml_name: c_name(r),
            serial: n[0],
            refresh: n[1],
            retry: n[2],
            expire: n[3],
            minimum: n[4],
        },
        RData::Wks { addr, proto, ports } => {
            dns::Record::WKS { node, class, ttl, data_len, address: *addr, protocol: *proto, ports: ports.clone() }
        }
        RData::Hinfo(a, b) => dns::Record::HINFO {
            node,
            class,
            ttl,
            data_len,
            cpu: String::from_utf8(a.clone()).unwrap(),
            os: String::from_utf8(b.clone()).unwrap(),
        },
        RData::Mx(p, n) => dns::Record::MX { node, class, ttl, data_len, priority: *p, name: c_name(n) },
        RData::Txt(v) => dns::Record::TXT {
            node,
            class,
            ttl,
            data_len,
            txts: v.iter().map(|s| String::from_utf8(s.clone()).unwrap()).collect(),
        },
    }
}

pub fn c_op(o: u8) -> dns::OpCode {
    dns::OpCode::from_num(o).unwrap()
}

pub fn c_rcode(r: u8) -> dns::RespCode {
    match r {
        0 => dns::RespCode::NoError,
        1 => dns::RespCode::FormErr,
        2 => dns::RespCode::ServFail,
        3 => dns::RespCode::NxDomain,
        4 => dns::RespCode::NotImp,
        _ => dns::RespCode::Refused,
    }
}

pub fn r_rcode(r: &dns::RespCode) -> u8 {
    match r {
        dns::RespCode::NoError => 0,
        dns::RespCode::FormErr => 1,
        dns::RespCode::ServFail => 2,
        dns::RespCode::NxDomain => 3,
        dns::RespCode::NotImp => 4,
        dns::RespCode::Refused => 5,
    }
}

pub fn c_hdr(h: &RHdr, c: [u16; 4]) -> dns::Header {
    dns::Header {
        id: h.id,
        query_resp: h.qr,
        op_code: c_op(h.op),
        auth_answer: h.aa,
        truncated: h.tc,
        recursion_desired: h.rd,
        recursion_available: h.ra,
        z: h.z,
        resp_code: c_rcode(h.rcode),
        questions_count: c[0],
        answers_count: c[1],
        authorities_count: c[2],
        additionals_count: c[3],
    }
}

pub fn c_msg(m: &RMsg) -> dns::Message {
    dns::Message {
        header: c_hdr(&m.h, counts(m)),
        questions: m
            .q
            .iter()
            .map(|q| dns::Question { node: c_name(&q.name), record_type: c_type(q.qtype), class: dns::Class::IN })
            .collect(),
        answers: m.sec[0].iter().map(c_rec).collect(),
        authorities: m.sec[1].iter().map(c_rec).collect(),
        additionals: m.sec[2].iter().map(c_rec).collect(),
    }
}

pub fn r_rec(r: &dns::Record) -> RRec {
    let data = match r {
        dns::Record::A { address, .. } => RData::A(*address),
        dns::Record::NS { name, .. } => RData::Name(NS, r_name(name)),
        dns::Record::CNAME { name, .. } => RData::Name(CNAME, r_name(name)),
        dns::Record::PTR { name, .. } => RData::Name(PTR, r_name(name)),
        dns::Record::SOA { ns_name, ml_name, serial, refresh, retry, expire, minimum, .. } => RData::Soa {
            m: r_name(ns_name),
            r: r_name(ml_name),
            n: [*serial, *refresh, *retry, *expire, *minimum],
        },
        dns::Record::WKS { address, protocol, ports, .. } => {
            let mut ports = ports.clone();
            ports.sort();
            ports.dedup();
            RData::Wks { addr: *address, proto: *protocol, ports }
        }
        dns::Record::HINFO { cpu, os, .. } => RData::Hinfo(cpu.as_bytes().to_vec(), os.as_bytes().to_vec()),
        dns::Record::MX { priority, name, .. } => RData::Mx(*priority, r_name(name)),
        dns::Record::TXT { txts, .. } => RData::Txt(txts.iter().map(|s| s.as_bytes().to_vec()).collect()),
    };
    RRec { name: r_name(r.node()), ttl: *r.ttl(), data }
}

pub fn r_hdr(h: &dns::Header) -> RHdr {
    RHdr {
        id: h.id,
        qr: h.query_resp,
        op: h.op_code.to_num(),
        aa: h.auth_answer,
        tc: h.truncated,
        rd: h.recursion_desired,
        ra: h.recursion_available,
        z: h.z,
        rcode: r_rcode(&h.resp_code),
    }
}

pub fn r_msg(m: &dns::Message) -> RMsg {
    RMsg {
        h: r_hdr(&m.header),
        q: m.questions.iter().map(|q| RQ { name: r_name(&q.node), qtype: q.record_type.to_num() }).collect(),
        sec: [
            m.answers.iter().map(r_rec).collect(),
            m.authorities.iter().map(r_rec).collect(),
            m.additionals.iter().map(r_rec).collect(),
        ],
    }
}

pub fn hdr_counts(h: &dns::Header) -> [u16; 4] {
    [h.questions_count, h.answers_count, h.authorities_count, h.additionals_count]
}

// ---------------------------------------------------------------- generators

const LDH: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-";

pub fn gen_label(r: &mut Rng) -> Vec<u8> {
    const POOL: [&str; 18] =
        ["a", "b", "A", "com", "Com", "xcom", "c-m", "org", "ns1", "ns2", "www", "mail", "0", "10", "x1", "example", "test", "EXAMPLE"];
    if r.pct(65) {
        return r.pick(&POOL).as_bytes().to_vec();
    }
    let n = match r.below(8) {
        0 => 63,
        1 => 62,
        2 => 1,
        3 => r.range(30, 63),
        _ => r.range(1, 12),
    };
    let mut l: Vec<u8> = (0..n).map(|_| *r.pick(LDH)).collect();
    for i in [0, n - 1] {
        while l[i] == b'-' {
            l[i] = *r.pick(LDH);
        }
    }
    l
}

pub fn gen_name(r: &mut Rng) -> RName {
    let n = match r.below(14) {
        0 => 0,
        1 => r.range(5, 12),
        2 => 127,
        _ => r.range(1, 4),
    };
    let mut v: RName = vec![];
    for _ in 0..n {
        let l = if n == 127 { vec![*r.pick(&LDH[..62])] } else { gen_label(r) };
        v.push(l);
    }
    // Sometimes exactly at the limit of 255 octets.
    if r.one_in(30) {
        v.clear();
        let mut left = 254;
        while left > 1 {
            let max = 63.min(left - 1);
            let mut k = r.range(1, max);
            if left - (k + 1) == 1 {
                k = if k > 1 { k - 1 } else { k + 1 };
                if k > max {
                    break;
                }
            }
            v.push((0..k).map(|_| *r.pick(&LDH[..62])).collect());
            left -= k + 1;
        }
    }
    while wire_len(&v) > 255 {
        v.pop();
    }
    v
}

/// A name from a small family, so that names share suffixes.
pub fn gen_rel_name(r: &mut Rng, pool: &mut Vec<RName>) -> RName {
    if !pool.is_empty() && r.pct(70) {
        let mut n = r.pick(pool).clone();
        match r.below(4) {
            0 => {}
            1 => {
                n.insert(0, gen_label(r));
            }
            2 => {
                if !n.is_empty() {
                    n.remove(0);
                }
            }
            _ => {
                for l in &mut n {
                    for c in l.iter_mut() {
                        if r.one_in(4) {
                            *c ^= if c.is_ascii_alphabetic() { 0x20 } else { 0 };
                        }
                    }
                }
            }
        }
        while wire_len(&n) > 255 {
            n.remove(0);
        }
        pool.push(n.clone());
        return n;
    }
    let n = gen_name(r);
    pool.push(n.clone());
    n
}

pub fn gen_string(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(10) {
        0 => 0,
        1 => 255,
        2 => 254,
        3 => r.range(60, 255),
        _ => r.range(1, 20),
    };
    if r.one_in(12) {
        // Multi-byte UTF-8.
        let mut s = String::new();
        while s.len() + 4 <= n {
            s.push(*r.pick(&['é', '漢', '🦀', 'z']));
        }
        return s.into_bytes();
    }
    (0..n).map(|_| r.range(0, 127) as u8).collect()
}

pub fn gen_data(r: &mut Rng, t: u16, pool: &mut Vec<RName>) -> RData {
    match t {
        A => RData::A([r.u8(), r.u8(), r.u8(), r.u8()]),
        NS | CNAME | PTR => RData::Name(t, gen_rel_name(r, pool)),
        SOA => RData::Soa {
            m: gen_rel_name(r, pool),
            r: gen_rel_name(r, pool),
            n: [r.edge_u32(), r.edge_u32(), r.edge_u32(), r.edge_u32(), r.edge_u32()],
        },
        WKS => {
            let n = match r.below(6) {
                0 => 0,
                1 => r.range(10, 60),
                _ => r.range(1, 5),
            };
            let max = match r.below(6) {
                0 => 65535,
                1 => 7,
                2 => 15,
                _ => 1023,
            };
            let mut ports: Vec<u32> = (0..n).map(|_| r.range(0, max) as u32).collect();
            ports.sort();
            ports.dedup();
            RData::Wks { addr: [r.u8(), r.u8(), r.u8(), r.u8()], proto: r.u8(), ports }
        }
        HINFO => RData::Hinfo(gen_string(r), gen_string(r)),
        MX => RData::Mx(r.edge_u16(), gen_rel_name(r, pool)),
        _ => {
            let n = match r.below(12) {
                0 => r.range(5, 30),
                1 => 256,
                _ => r.range(1, 3),
            };
            RData::Txt((0..n).map(|_| if n == 256 { vec![b'x'; 255] } else { gen_string(r) }).take(if n == 256 { 255 } else { n }).collect())
        }
    }
}

pub fn gen_rec(r: &mut Rng, pool: &mut Vec<RName>) -> RRec {
    let t = *r.pick(&TYPES);
    RRec { name: gen_rel_name(r, pool), ttl: r.edge_u32(), data: gen_data(r, t, pool) }
}

pub fn gen_hdr(r: &mut Rng) -> RHdr {
    RHdr {
        id: r.edge_u16(),
        qr: r.bool(),
        op: 0,
        aa: r.bool(),
        tc: r.bool(),
        rd: r.bool(),
        ra: r.bool(),
        z: 0,
        rcode: r.range(0, 5) as u8,
    }
}

pub fn gen_msg(r: &mut Rng, max_each: usize) -> RMsg {
    let mut pool = vec![];
    let mut m = RMsg { h: gen_hdr(r), ..Default::default() };
    let nq = *r.pick(&[0, 1, 1, 1, 1, 2, 3]);
    for _ in 0..nq {
        m.q.push(RQ { name: gen_rel_name(r, &mut pool), qtype: *r.pick(&TYPES) });
    }
    for s in 0..3 {
        let n = if r.pct(40) { 0 } else { r.range(0, max_each) };
        for _ in 0..n {
            m.sec[s].push(gen_rec(r, &mut pool));
        }
    }
    m
}
