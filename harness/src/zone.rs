//! Zone files: abstract zone sets, a text renderer, rule breakers and the reference nameserver.
use crate::ensure;
use crate::mock::*;
use crate::run::*;
use crate::util::*;
use crate::wire::*;
use ariadne_dns::nameserver::*;
use ariadne_dns::shared::dns;
use std::collections::BTreeMap;
use std::fs;

#[derive(Clone, Debug)]
pub struct Sub {
    pub zone: RName,
    pub ttl0: u32,
    pub min: u32,
    pub recs: Vec<RRec>,
}

/// What a set of zone files states. The first record is the SOA.
#[derive(Clone, Debug)]
pub struct ZSet {
    pub zone: RName,
    pub ttl0: u32,
    pub recs: Vec<RRec>,
    pub subs: Vec<Sub>,
}

impl ZSet {
    pub fn min(&self) -> u32 {
        match &self.recs[0].data {
            RData::Soa { n, .. } => n[4],
            _ => 0,
        }
    }
    pub fn in_auth(&self, n: &RName) -> bool {
        in_zone(n, &self.zone) && !self.subs.iter().any(|s| in_zone(n, &s.zone))
    }
}

fn norm_data(d: &RData) -> RData {
    match d {
        RData::Name(t, n) => RData::Name(*t, lower(n)),
        RData::Mx(p, n) => RData::Mx(*p, lower(n)),
        RData::Soa { m, r, n } => RData::Soa { m: lower(m), r: lower(r), n: *n },
        d => d.clone(),
    }
}

/// The record with its names in lower case.
pub fn norm(r: &RRec) -> RRec {
    RRec { name: lower(&r.name), ttl: r.ttl, data: norm_data(&r.data) }
}

pub fn cat(l: &[&RName]) -> RName {
    l.iter().flat_map(|n| n.iter().cloned()).collect()
}

fn short_label(r: &mut Rng) -> Vec<u8> {
    loop {
        let l = gen_label(r);
        if l.len() <= 20 || r.one_in(40) {
            return l;
        }
    }
}

fn ascii_string(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(14) {
        0 => 0,
        1 => 255,
        2 => r.range(60, 254),
        _ => r.range(1, 12),
    };
    let mode = r.below(4);
    (0..n)
        .map(|_| match mode {
            0 => *r.pick(b"abcdefgXYZ0123456789-_=") ,
            1 => r.range(33, 126) as u8,
            2 => *r.pick(b"\"\\;()@$ \t\n\r\x0c\x00\x7fa1"),
            _ => r.range(0, 127) as u8,
        })
        .collect()
}

fn ttl_above(r: &mut Rng, min: u32) -> u32 {
    match r.below(5) {
        0 => min,
        1 => min.saturating_add(1),
        2 => u32::MAX,
        _ => min.saturating_add(r.u16() as u32),
    }
}

/// A zone set that keeps every rule.
pub fn gen_zset(r: &mut Rng, max_recs: usize) -> ZSet {
    let mut zone: RName = if r.one_in(12) { vec![] } else { (0..r.range(1, 3)).map(|_| short_label(r)).collect() };
    if r.one_in(60) {
        // Leaves room for little below.
        zone = vec![vec![b'z'; 63], vec![b'y'; 63], vec![b'x'; 50]];
    }
    let mut subs: Vec<Sub> = vec![];
    for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 8]) {
        let mut n = zone.clone();
        for _ in 0..r.range(1, 2) {
            n.insert(0, short_label(r));
        }
        if subs.iter().any(|s| in_zone(&n, &s.zone) || in_zone(&s.zone, &n)) || wire_len(&n) > 230 {
            continue;
        }
        subs.push(Sub { zone: n, ttl0: 0, min: 0, recs: vec![] });
    }
    let min = *r.pick(&[0, 0, 60, 60, 3600, 86400, u32::MAX, 1]);
    let mut z = ZSet { zone: zone.clone(), ttl0: ttl_above(r, min), recs: vec![], subs };
    if r.one_in(5) {
        z.ttl0 = r.edge_u32();
    }

    // Owner names.
    let mut owners: Vec<RName> = vec![zone.clone()];
    for _ in 0..r.range(0, 6) {
        let base = r.pick(&owners).clone();
        let mut n = base;
        n.insert(0, short_label(r));
        if wire_len(&n) <= 255 && z.in_auth(&n) {
            owners.push(n);
        }
    }
    // Names that look like sub zones but are not.
    for i in 0..z.subs.len() {
        let mut n = z.subs[i].zone.clone();
        if r.pct(50) && n[0].len() < 60 {
            n[0].insert(0, b'x');
            if z.in_auth(&n) {
                owners.push(n);
            }
        }
    }
    let mut pool: Vec<RName> = owners.clone();
    pool.extend(z.subs.iter().map(|s| s.zone.clone()));
    let data_name = |r: &mut Rng, pool: &mut Vec<RName>| -> RName {
        match r.below(6) {
            0 => gen_name(r),
            1 => zone.clone(),
            _ => gen_rel_name(r, pool),
        }
    };

    let soa_ttl = ttl_above(r, min);
    let (m, rn) = (data_name(r, &mut pool), data_name(r, &mut pool));
    z.recs.push(RRec {
        name: zone.clone(),
        ttl: soa_ttl,
        data: RData::Soa { m, r: rn, n: [r.edge_u32(), r.edge_u32(), r.edge_u32(), r.edge_u32(), min] },
    });
    let n_ns = r.range(1, 3);
    let n_recs = r.range(0, max_recs);
    let mut kinds: Vec<u16> = vec![NS; n_ns];
    for _ in 0..n_recs {
        kinds.push(*r.pick(&[A, A, A, CNAME, WKS, PTR, HINFO, MX, TXT, TXT]));
    }
    r.shuffle(&mut kinds);
    for k in kinds {
        let name = if k == NS { zone.clone() } else { r.pick(&owners).clone() };
        let data = match k {
            A => RData::A([r.u8(), r.u8(), r.u8(), r.u8()]),
            WKS => RData::Wks { addr: [r.u8(), r.u8(), 0, 255], proto: *r.pick(&[6, 17]), ports: vec![] },
            HINFO => RData::Hinfo(ascii_string(r), ascii_string(r)),
            TXT => {
                let n = if r.one_in(40) { r.range(10, 60) } else { r.range(1, 4) };
                RData::Txt((0..n).map(|_| ascii_string(r)).collect())
            }
            MX => RData::Mx(r.edge_u16(), data_name(r, &mut pool)),
            t => RData::Name(t, data_name(r, &mut pool)),
        };
        let rec = RRec { name, ttl: ttl_above(r, min), data };
        let dup = z.recs.iter().any(|o| {
            name_eq(&o.name, &rec.name) && (norm_data(&o.data) == norm_data(&rec.data) || (k == CNAME && o.data.rtype() == CNAME))
        });
        if !dup {
            z.recs.push(rec);
        }
    }

    // Sub zones: NS at the top, glue for the nameservers inside any sub zone.
    let tops: Vec<RName> = z.subs.iter().map(|s| s.zone.clone()).collect();
    let mut glue: Vec<RName> = vec![];
    for i in 0..z.subs.len() {
        let min = *r.pick(&[0, 0, 60, 3600, u32::MAX]);
        let mut recs: Vec<RRec> = vec![];
        for _ in 0..r.range(1, 3) {
            let t = match r.below(5) {
                0 | 1 => cat(&[&vec![short_label(r)], &tops[i]]),
                2 => {
                    let t = r.pick(&tops).clone();
                    if r.one_in(3) { t } else { cat(&[&vec![short_label(r)], &t]) }
                }
                3 => r.pick(&owners).clone(),
                _ => gen_name(r),
            };
            if wire_len(&t) > 255 {
                continue;
            }
            let rec = RRec { name: tops[i].clone(), ttl: ttl_above(r, min), data: RData::Name(NS, t.clone()) };
            if recs.iter().any(|o| norm_data(&o.data) == norm_data(&rec.data)) {
                continue;
            }
            if tops.iter().any(|s| in_zone(&t, s)) && !glue.iter().any(|g| name_eq(g, &t)) {
                glue.push(t);
            }
            recs.push(rec);
        }
        if recs.is_empty() {
            recs.push(RRec { name: tops[i].clone(), ttl: min, data: RData::Name(NS, labels("ns.elsewhere-zz.")) });
        }
        z.subs[i].min = min;
        z.subs[i].ttl0 = if r.bool() { min } else { r.edge_u32() };
        z.subs[i].recs = recs;
    }
    for g in glue {
        for s in &mut z.subs {
            if in_zone(&g, &s.zone) {
                let n = if r.one_in(12) { r.range(3, 30) } else { r.range(1, 2) };
                for k in 0..n {
                    let rec = RRec { name: g.clone(), ttl: ttl_above(r, s.min), data: RData::A([r.u8(), r.u8(), r.u8(), k as u8]) };
                    let at = r.below(s.recs.len() + 1);
                    s.recs.insert(at, rec);
                }
            }
        }
    }
    z
}

// ---------------------------------------------------------------- renderer

/// Files by path; each is a list of entries (each with its line ends).
pub type Files = BTreeMap<String, Vec<String>>;

struct Emit<'a> {
    r: &'a mut Rng,
    z: &'a ZSet,
    files: Files,
    n_files: usize,
    fancy: bool,
    eol: &'static str,
}

#[derive(Clone)]
struct St {
    origin: RName,
    ttl: Option<u32>,
}

fn quote(r: &mut Rng, s: &[u8], fancy: bool) -> String {
    let mut o = String::from("\"");
    for &c in s {
        if c < 32 && c != 9 || c == 127 || (fancy && r.one_in(20)) {
            o.push_str(&format!("\\{:03}", c));
        } else if c == b'"' || c == b'\\' || (fancy && !c.is_ascii_digit() && r.one_in(12)) {
            o.push('\\');
            o.push(c as char);
        } else {
            o.push(c as char);
        }
    }
    o.push('"');
    o
}

fn string_token(r: &mut Rng, s: &[u8], fancy: bool) -> String {
    let plain = !s.is_empty() && s != b"@" && s.iter().all(|c| (33..=126).contains(c));
    if !plain || r.bool() {
        return quote(r, s, fancy);
    }
    let mut o = String::new();
    for (i, &c) in s.iter().enumerate() {
        if b"\"\\;()".contains(&c) || (c == b'$' && i == 0) {
            o.push('\\');
            o.push(c as char);
        } else if fancy && r.one_in(25) {
            o.push_str(&format!("\\{:03}", c));
        } else {
            o.push(c as char);
        }
    }
    o
}

impl<'a> Emit<'a> {
    fn ws(&mut self) -> String {
        self.r.pick(&[" ", " ", "\t", "   ", " \t ", "        "]).to_string()
    }
    fn comment(&mut self) -> String {
        self.r.pick(&["; a comment", ";", ";; ( \" unbalanced", "; ) $ORIGIN x. @", ";\\", "; \"quoted\" ; twice", ";A 1.2.3.4"]).to_string()
    }
    fn flip(&mut self, n: &RName) -> RName {
        let mut n = n.clone();
        if self.r.one_in(6) {
            for l in &mut n {
                for c in l.iter_mut() {
                    if c.is_ascii_alphabetic() && self.r.one_in(3) {
                        *c ^= 0x20;
                    }
                }
            }
        }
        n
    }
    /// The text of a name given the origin; '@' only when allowed.
    fn name(&mut self, n: &RName, origin: &RName, at: bool) -> String {
        let inside = in_zone(n, origin);
        let n2 = self.flip(n);
        if inside && n.len() == origin.len() && at && self.r.bool() {
            return "@".into();
        }
        let mut t = if inside && n.len() > origin.len() && self.r.pct(65) {
            let k = n.len() - origin.len();
            let mut s = text(&n2[..k].to_vec());
            s.pop();
            s
        } else {
            text(&n2)
        };
        if self.fancy && self.r.one_in(40) && t.is_ascii() && t != "." {
            let i = self.r.below(t.len());
            let c = t.as_bytes()[i];
            if c.is_ascii_alphabetic() {
                let e = if self.r.bool() { format!("\\{:03}", c) } else { format!("\\{}", c as char) };
                t.replace_range(i..i + 1, &e);
            }
        }
        t
    }
    fn data(&mut self, d: &RData, origin: &RName) -> Vec<String> {
        let ip = |a: &[u8; 4]| format!("{}.{}.{}.{}", a[0], a[1], a[2], a[3]);
        match d {
            RData::A(a) => vec![ip(a)],
            // The data of PTR records is always absolute.
            RData::Name(PTR, n) => vec![text(&self.flip(n))],
            RData::Name(_, n) => vec![self.name(n, origin, true)],
            RData::Soa { m, r, n } => {
                let mut v = vec![self.name(m, origin, true), self.name(r, origin, true)];
                v.extend(n.iter().map(|x| x.to_string()));
                v
            }
            RData::Wks { addr, proto, .. } => {
                let p = if *proto == 6 { self.r.pick(&["TCP", "tcp", "Tcp"]) } else { self.r.pick(&["UDP", "udp"]) };
                vec![ip(addr), p.to_string()]
            }
            RData::Hinfo(a, b) => {
                let f = self.fancy;
                vec![string_token(self.r, a, f), string_token(self.r, b, f)]
            }
            RData::Mx(p, n) => vec![p.to_string(), self.name(n, origin, true)],
            RData::Txt(v) => {
                let f = self.fancy;
                v.iter().map(|s| string_token(self.r, s, f)).collect()
            }
        }
    }
    fn record(&mut self, rec: &RRec, st: &mut St, soa: bool) -> String {
        let owner = if name_eq(&rec.name, &st.origin) && self.r.pct(45) {
            "".to_string()
        } else {
            self.name(&rec.name, &st.origin, true)
        };
        let mut toks: Vec<String> = vec![];
        let ttl = if st.ttl == Some(rec.ttl) && self.r.pct(70) { None } else { Some(rec.ttl.to_string()) };
        let class = if soa || self.r.pct(50) { Some("IN".to_string()) } else { None };
        if self.r.bool() {
            toks.extend(ttl);
            toks.extend(class);
        } else {
            toks.extend(class);
            toks.extend(ttl);
        }
        let tname = match rec.data.rtype() {
            A => "A",
            NS => "NS",
            CNAME => "CNAME",
            SOA => "SOA",
            WKS => "WKS",
            PTR => "PTR",
            HINFO => "HINFO",
            MX => "MX",
            _ => "TXT",
        };
        toks.push(tname.into());
        toks.extend(self.data(&rec.data, &st.origin));
        // The first record after the SOA inherits the configured starting TTL.
        if !soa {
            st.ttl = Some(rec.ttl);
        }
        let multi = self.fancy && self.r.pct(30);
        let (open, close) = if multi {
            let a = self.r.below(toks.len());
            (a, self.r.range(a + 1, toks.len()))
        } else {
            (usize::MAX, usize::MAX)
        };
        let mut s = owner;
        let mut inside = false;
        for (i, t) in toks.iter().enumerate() {
            let mut sep = if inside && self.r.pct(40) {
                let mut x = String::new();
                if self.r.bool() {
                    x += &self.ws();
                }
                if self.r.one_in(3) {
                    x += &self.comment();
                }
                x += self.eol;
                if self.r.one_in(4) {
                    x += self.r.pick(&["", "   ", "; (", "\t;x"]);
                    x += self.eol;
                }
                if self.r.pct(70) {
                    x += &self.ws();
                }
                x
            } else {
                self.ws()
            };
            if i == open {
                inside = true;
                sep.push('(');
                if self.r.bool() {
                    sep += &self.ws();
                }
                if self.r.pct(30) {
                    sep += &self.comment();
                    sep += self.eol;
                }
            }
            s += &sep;
            s += t;
            if i + 1 == close {
                inside = false;
                if self.r.bool() {
                    s += &self.ws();
                }
                if self.r.pct(30) {
                    s += &self.comment();
                    s += self.eol;
                }
                s.push(')');
            }
        }
        if self.r.one_in(4) {
            s += &self.ws();
        }
        if self.r.one_in(5) {
            s += &self.comment();
        }
        s += self.eol;
        s
    }
    fn filler(&mut self, out: &mut Vec<String>) {
        if self.r.one_in(6) {
            let c = match self.r.below(4) {
                0 => "".to_string(),
                1 => self.ws(),
                2 => self.comment(),
                _ => self.ws() + &self.comment(),
            };
            out.push(c + self.eol);
        }
    }
    /// A place that may be an origin.
    fn some_origin(&mut self, recs: &[RRec]) -> RName {
        let z = self.z;
        for _ in 0..4 {
            let n = if recs.is_empty() { z.zone.clone() } else { self.r.pick(recs).name.clone() };
            let n: RName = match self.r.below(3) {
                0 => n,
                1 if !n.is_empty() => n[1..].to_vec(),
                _ => {
                    let mut m = n.clone();
                    m.insert(0, b"o1".to_vec());
                    m
                }
            };
            if wire_len(&n) <= 255 && z.in_auth(&n) {
                return n;
            }
        }
        z.zone.clone()
    }
    fn auth(&mut self, recs: &[RRec], st: &mut St, out: &mut Vec<String>, depth: usize) {
        let mut i = 0;
        while i < recs.len() {
            self.filler(out);
            if self.r.one_in(8) {
                let o = self.some_origin(&recs[i..]);
                let t = text(&self.flip(&o));
                let mut l = format!("$ORIGIN{}{}", self.ws(), t);
                if self.r.one_in(4) {
                    l += &(self.ws() + &self.comment());
                }
                out.push(l + self.eol);
                st.origin = o;
            }
            if depth < 4 && self.r.one_in(10) {
                let k = self.r.range(0, (recs.len() - i).min(5));
                let o = if self.r.bool() { Some(self.some_origin(&recs[i..])) } else { None };
                let mut st2 = St { origin: o.clone().unwrap_or(st.origin.clone()), ttl: st.ttl };
                let mut body = vec![];
                self.auth(&recs[i..i + k], &mut st2, &mut body, depth + 1);
                if self.r.one_in(5) {
                    // Changes that must not leak into the including file.
                    let o = self.some_origin(recs);
                    body.push(format!("$ORIGIN {}{}", text(&o), self.eol));
                }
                self.n_files += 1;
                let nf = self.n_files;
                let (path, shown) = match self.r.below(6) {
                    0 => (format!("{:03}", nf), format!("{:03}", nf)),
                    1 => (format!("in c{}", nf), format!("in\\ c{}", nf)),
                    2 => (format!("dir/inc.{}", nf), format!("dir/inc.{}", nf)),
                    _ => (format!("inc{}.zone", nf), format!("inc{}.zone", nf)),
                };
                let mut l = format!("$INCLUDE{}{}", self.ws(), shown);
                if let Some(o) = &o {
                    l += &self.ws();
                    l += &self.name(o, &st.origin.clone(), false);
                }
                if self.r.one_in(4) {
                    l += &(self.ws() + &self.comment());
                }
                out.push(l + self.eol);
                self.files.insert(path, body);
                i += k;
                continue;
            }
            out.push(self.record(&recs[i], st, false));
            i += 1;
        }
        self.filler(out);
    }
}

/// Renders a zone set; "main" and "sub<i>" are the top files.
pub fn render(r: &mut Rng, z: &ZSet, fancy: bool) -> Files {
    let eol = if r.one_in(8) { "\r\n" } else { "\n" };
    let mut e = Emit { r, z, files: Files::new(), n_files: 0, fancy, eol };
    let mut main = vec![];
    e.filler(&mut main);
    let mut st = St { origin: z.zone.clone(), ttl: Some(z.ttl0) };
    main.push(e.record(&z.recs[0], &mut st, true));
    e.auth(&z.recs[1..], &mut st, &mut main, 0);
    e.files.insert("main".into(), main);
    for (i, s) in z.subs.iter().enumerate() {
        let mut st = St { origin: s.zone.clone(), ttl: Some(s.ttl0) };
        let mut f = vec![];
        for rec in &s.recs {
            e.filler(&mut f);
            f.push(e.record(rec, &mut st, false));
        }
        e.filler(&mut f);
        e.files.insert(format!("sub{}", i), f);
    }
    // Sometimes the last line end is missing.
    let mut files = e.files;
    for f in files.values_mut() {
        if r.one_in(5) {
            if let Some(l) = f.last_mut() {
                *l = l.trim_end_matches(|c| c == '\n' || c == '\r').to_string();
            }
        }
    }
    files
}

pub fn dump(files: &Files) -> String {
    let mut s = String::new();
    for (k, v) in files {
        s += &format!("--- {}\n{}\n", k, v.concat());
    }
    s
}

pub fn write_files(dir: &str, files: &Files) {
    for (k, v) in files {
        let p = format!("{}/{}", dir, k);
        if k.contains('/') {
            let _ = fs::create_dir_all(std::path::Path::new(&p).parent().unwrap());
        }
        fs::write(&p, v.concat()).unwrap();
    }
}

pub fn remove_files<'a>(dir: &str, names: impl Iterator<Item = &'a String>) {
    for k in names {
        let _ = fs::remove_file(format!("{}/{}", dir, k));
    }
}

pub fn params(z: &ZSet, r: &mut Rng) -> ParsingParams {
    let mut case = |n: &RName| {
        let mut n = n.clone();
        if r.one_in(6) {
            for l in &mut n {
                l.make_ascii_uppercase();
            }
        }
        c_name(&n)
    };
    ParsingParams {
        file_path: "main".into(),
        zone: case(&z.zone),
        starting_ttl: z.ttl0,
        sub_zones: z
            .subs
            .iter()
            .enumerate()
            .map(|(i, s)| SubParsingParams { file_path: format!("sub{}", i), zone: case(&s.zone), starting_ttl: s.ttl0, min_ttl: s.min })
            .collect(),
    }
}

/// Writes the files into the shard's directory (made current) and loads them.
pub fn load(c: &mut Case, z: &ZSet, files: &Files) -> Result<Result<ManagedZone, String>, Bad> {
    std::env::set_current_dir(c.dir).unwrap();
    write_files(".", files);
    let p = params(z, &mut c.rng);
    let r = guardv("panic while loading", || clip(&dump(files), 3000), || parse_zone_files(p))?;
    remove_files(".", files.keys());
    Ok(r.map_err(|(e, s)| format!("{:?} ({})", e, s)))
}

fn group(recs: &[RRec]) -> BTreeMap<(RName, u16), Vec<RRec>> {
    let mut m: BTreeMap<(RName, u16), Vec<RRec>> = BTreeMap::new();
    for r in recs {
        m.entry((lower(&r.name), r.data.rtype())).or_default().push(norm(r));
    }
    m
}

fn compare(what: &str, zone: &Zone, top: &RName, recs: &[RRec]) -> Res {
    ensure!(name_eq(&r_name(&zone.zone), top), "zone name", "{}: zone {} instead of {}", what, zone.zone, text(top));
    let want = group(recs);
    for ((n, t), list) in &want {
        let got: Vec<RRec> = match zone.get(&c_name(n), c_type(*t)) {
            None => return bad("records lost", format!("{}: no {} records of type {}, stated: {:?}", what, text(n), t, list)),
            Some(v) => v.iter().map(|r| norm(&r_rec(r))).collect(),
        };
        ensure!(got == *list, "records differ", "{}: {} type {}: loaded {:?}\nstated {:?}", what, text(n), t, got, list);
        for r in zone.get(&c_name(n), c_type(*t)).unwrap() {
            ensure!(r.class().to_num() == 1, "class", "{}: class {:?} of {:?}", what, r.class(), r);
        }
    }
    for t in TYPES {
        let got = zone.get_all_of_type(c_type(t)).len();
        let stated = recs.iter().filter(|r| r.data.rtype() == t).count();
        ensure!(got == stated, "extra records", "{}: {} records of type {} loaded, {} stated: {:?}", what, got, t, stated, zone.get_all_of_type(c_type(t)));
    }
    Ok(())
}

/// Zone files load as exactly the records they state.
pub fn n01(c: &mut Case) -> Res {
    if c.rng.one_in(400) {
        return wks_ports(c);
    }
    if c.rng.one_in(100) {
        return high_octets(c);
    }
    if c.rng.one_in(400) {
        return deep_includes(c);
    }
    let max = *c.rng.pick(&[3, 10, 25]);
    let z = gen_zset(&mut c.rng, max);
    let fancy = c.rng.pct(85);
    let files = render(&mut c.rng, &z, fancy);
    let loaded = match load(c, &z, &files)? {
        Ok(v) => v,
        Err(e) => return bad("refused", format!("valid files refused: {}\nzone {} {:?}\n{}", e, text(&z.zone), z.subs.iter().map(|s| text(&s.zone)).collect::<Vec<_>>(), dump(&files))),
    };
    let ctx = |b: Bad| match b {
        Bad::Violation(s, d) => Bad::Violation(s, format!("{}\n{}", d, dump(&files))),
        b => b,
    };
    compare("zone", &loaded.auth_zone, &z.zone, &z.recs).map_err(ctx)?;
    ensure!(loaded.sub_zones.len() == z.subs.len(), "sub zones", "{} sub zones loaded of {}", loaded.sub_zones.len(), z.subs.len());
    for (i, s) in z.subs.iter().enumerate() {
        compare("sub zone", &loaded.sub_zones[i], &s.zone, &s.recs).map_err(ctx)?;
    }
    c.count("zone sets loaded");
    c.add("records compared", z.recs.len() as u64 + z.subs.iter().map(|s| s.recs.len() as u64).sum::<u64>());
    if files.len() > z.subs.len() + 1 {
        c.count("with included files");
    }
    if !z.subs.is_empty() {
        c.count("with sub zones");
    }
    let all = dump(&files);
    for (k, p) in [("with origin changes", "$ORIGIN"), ("with multi-line records", "("), ("with escapes", "\\"), ("with '@'", "@")] {
        if all.contains(p) {
            c.count(k);
        }
    }
    c.distinct(fnv(all.as_bytes()));
    c.sample("zone set", || all.clone());
    Ok(())
}

/// Files including files, dozens of levels deep; each inherits the state and changes only its own.
fn deep_includes(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let depth = *r.pick(&[1usize, 3, 6, 10, 17, 40, 99]);
    let top = labels("z.");
    let soa = RRec { name: top.clone(), ttl: 9, data: RData::Soa { m: labels("a."), r: labels("b."), n: [1, 2, 3, 4, 5] } };
    let (mut origin, mut ttl, mut n) = (top.clone(), 60u32, 0u32);
    let mut files = Files::new();
    let (mut before, mut after): (Vec<RRec>, Vec<Vec<RRec>>) = (vec![], vec![]);
    for k in 0..=depth {
        let mut f = vec![];
        if k == 0 {
            f.push("@ 9 IN SOA a. b. 1 2 3 4 5\n@ NS a.\n".to_string());
            before.push(RRec { name: top.clone(), ttl, data: RData::Name(NS, labels("a.")) });
        }
        let mut line = |r: &mut Rng, f: &mut Vec<String>, origin: &RName, ttl: &mut u32| {
            n += 1;
            let mut t = String::new();
            if r.bool() {
                *ttl = r.range(5, 90) as u32;
                t = format!("{} ", ttl);
            }
            let (o, name) = match r.below(4) {
                0 => (String::new(), origin.clone()),
                1 => ("@".to_string(), origin.clone()),
                2 => ("h".to_string(), cat(&[&labels("h."), origin])),
                _ => ("same.z.".to_string(), labels("same.z.")),
            };
            f.push(format!("{} {}A 10.0.{}.{}\n", o, t, n / 256, n % 256));
            RRec { name, ttl: *ttl, data: RData::A([10, 0, (n / 256) as u8, (n % 256) as u8]) }
        };
        for _ in 0..r.below(3) {
            before.push(line(r, &mut f, &origin, &mut ttl));
        }
        let mut mine = vec![];
        if k < depth {
            let child = match r.below(4) {
                0 => {
                    f.push(format!("$INCLUDE deep{} o{}.z.\n", k + 1, k));
                    labels(&format!("o{}.z.", k))
                }
                1 if origin.len() < 6 => {
                    f.push(format!("$INCLUDE deep{} q\n", k + 1));
                    cat(&[&labels("q."), &origin])
                }
                _ => {
                    f.push(format!("$INCLUDE deep{}\n", k + 1));
                    origin.clone()
                }
            };
            let mut t = ttl;
            for _ in 0..r.below(3) {
                mine.push(line(r, &mut f, &origin, &mut t));
            }
            origin = child;
        }
        after.push(mine);
        files.insert(if k == 0 { "main".to_string() } else { format!("deep{}", k) }, f);
    }
    let mut recs = before;
    recs.extend(after.into_iter().rev().flatten());
    recs.push(soa);
    let z = ZSet { zone: top, ttl0: 60, recs, subs: vec![] };
    match load(c, &z, &files)? {
        Err(e) => bad("refused", format!("{} levels of included files refused: {}\n{}", depth, e, dump(&files))),
        Ok(m) => {
            compare("zone", &m.auth_zone, &z.zone, &z.recs).map_err(|b| match b {
                Bad::Violation(s, d) => Bad::Violation(s, format!("{}\n{}", d, dump(&files))),
                b => b,
            })?;
            c.count(if depth > 20 { "included dozens of levels deep" } else { "included several levels deep" });
            c.distinct(fnv(dump(&files).as_bytes()));
            Ok(())
        }
    }
}

/// '\\DDD' is that octet; a file with octets that are not supported is refused, never changed.
fn high_octets(c: &mut Case) -> Res {
    let z = ZSet {
        zone: labels("w."),
        ttl0: 60,
        recs: vec![RRec { name: labels("w."), ttl: 60, data: RData::Soa { m: labels("a."), r: labels("b."), n: [1, 2, 3, 4, 5] } }],
        subs: vec![],
    };
    let mut v = c.rng.range(0, 999);
    let mut esc = format!("\\{:03}", v);
    if c.rng.one_in(4) {
        v = c.rng.range(33, 126);
        esc = if (v as u8).is_ascii_digit() { format!("\\{:03}", v) } else { format!("\\{}", v as u8 as char) };
    }
    let (pre, post) = (*c.rng.pick(&["", "a", "1", " "]), *c.rng.pick(&["", "b", "7", "\\\\"]));
    let txt = match c.rng.below(4) {
        0 | 1 => format!("\"{}{}{}\"", pre, esc, post),
        2 => format!("\"x\" \"{}{}{}\"", pre, esc, post),
        _ => format!("{}{}{}", pre.trim(), esc, post),
    };
    let first = txt.starts_with("\"x");
    let mut want: Vec<u8> = (if txt.starts_with('"') { pre } else { pre.trim() }).as_bytes().to_vec();
    want.push(v.min(255) as u8);
    want.extend_from_slice(if post == "\\\\" { b"\\" } else { post.as_bytes() });
    let mut files = Files::new();
    files.insert("main".into(), vec![format!("@ 60 IN SOA a. b. 1 2 3 4 5\n@ NS a.\nh TXT {}\n", txt)]);
    match load(c, &z, &files)? {
        Err(_) => {
            ensure!(v > 126 || v < 32, "refused", "{} refused", txt);
            c.count("octets refused");
        }
        Ok(m) => {
            let got: Vec<RRec> = m.auth_zone.get_all_of_type(dns::RecordType::TXT).iter().map(|r| r_rec(r)).collect();
            let mut l = if first { vec![b"x".to_vec()] } else { vec![] };
            l.push(want);
            ensure!(v < 256 && got.len() == 1 && got[0].data == RData::Txt(l.clone()), "octet changed", "{} loaded as {:?} instead of {:?}", txt, got, l);
            c.count("octets loaded");
        }
    }
    c.distinct(fnv(txt.as_bytes()));
    Ok(())
}

/// Known restriction: services listed in WKS records are dropped or refused.
fn wks_ports(c: &mut Case) -> Res {
    let z = ZSet {
        zone: labels("w."),
        ttl0: 60,
        recs: vec![RRec { name: labels("w."), ttl: 60, data: RData::Soa { m: labels("a."), r: labels("b."), n: [1, 2, 3, 4, 5] } }],
        subs: vec![],
    };
    let (svc, ports): (&str, Vec<u32>) = match c.rng.below(3) {
        0 => ("25", vec![25]),
        1 => ("SMTP TELNET", vec![23, 25]),
        _ => ("smtp", vec![25]),
    };
    let mut files = Files::new();
    files.insert("main".into(), vec![format!("@ 60 IN SOA a. b. 1 2 3 4 5\n@ NS a.\nh WKS 10.0.0.1 TCP {}\n", svc)]);
    let l = load(c, &z, &files)?;
    let got = match &l {
        Ok(m) => m.auth_zone.get_all_of_type(dns::RecordType::WKS).iter().map(|r| r_rec(r)).collect::<Vec<_>>(),
        Err(_) => vec![],
    };
    c.count("WKS service lists");
    let ok = got.len() == 1 && got[0].data == RData::Wks { addr: [10, 0, 0, 1], proto: 6, ports };
    ensure!(ok, "wks-ports", "services of a WKS record: {:?} instead of {}", l.map(|_| got), svc);
    Ok(())
}

// ---------------------------------------------------------------- N03

fn outside_name(r: &mut Rng, z: &ZSet) -> Option<RName> {
    if z.zone.is_empty() {
        return None;
    }
    let n = match r.below(5) {
        0 => z.zone[1..].to_vec(),
        1 => {
            // Ends with the same characters.
            let mut n = z.zone.clone();
            n[0].insert(0, b'x');
            n
        }
        2 => labels("other-zz."),
        3 => {
            let mut n = z.zone.clone();
            n.push(b"zz".to_vec());
            n
        }
        _ => {
            let mut n = z.zone[1..].to_vec();
            n.insert(0, b"sibling-zz".to_vec());
            n
        }
    };
    if name_ok(&n) && !in_zone(&n, &z.zone) {
        Some(n)
    } else {
        None
    }
}

const LABEL64: &str = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa";

/// Ways of writing data that no record type allows; {P} stands for owner, TTL and class.
fn bad_syntax(r: &mut Rng, p: &str, sub: bool) -> (String, String) {
    let s256 = "s".repeat(256);
    let o = p.split_whitespace().next().unwrap_or("@");
    let long = format!("{0}.{0}.{0}.{0}.", &LABEL64[..63]);
    let any: Vec<String> = vec![
        format!("{p} A"),
        format!("{p} A 1.2.3"),
        format!("{p} A 1.2.3.256"),
        format!("{p} A 1.2.3.4.5"),
        format!("{p} A 1.2.3.4 5.6.7.8"),
        format!("{p} A 1.2.3.4 extra"),
        format!("{p} A host.example."),
        format!("{p} A ::1"),
        format!("{p} A 16909060"),
        format!("{p} A ) 1.2.3.4"),
        format!("{p} A (( 1.2.3.4 ))"),
        format!("{p} A ( 1.2.3.4"),
        format!("{p} A 1.2.3.4 )"),
        format!("{p} A 1.2.3.4\\"),
        format!("{p} A 1.2.3.4 \"x"),
        format!("{p} FOO 1.2.3.4"),
        format!("{p} IN A 1.2.3.4"),
        format!("{p}"),
        format!("{p} IN"),
        format!("{p} 1.2.3.4"),
        format!("\"q\" {p} A 1.2.3.4"),
        format!("{o} +4294967295 A 1.2.3.4"),
        format!("{o} IN +4294967295 A 1.2.3.4"),
        format!("{o} -1 IN A 1.2.3.4"),
        format!("{o} 4294967296 IN A 1.2.3.4"),
        format!("{o} 1h IN A 1.2.3.4"),
        format!("{o} 4294967295 IN 4294967295 A 1.2.3.4"),
        format!("{o} IN 4294967295 IN A 1.2.3.4"),
        format!("{o} 4294967295 4294967295 A 1.2.3.4"),
        format!("{o} IN IN A 1.2.3.4"),
        format!(") A 1.2.3.4"),
    ];
    let auth: Vec<String> = vec![
        format!("{p} CNAME"),
        format!("{p} CNAME a..b."),
        format!("{p} CNAME .a."),
        format!("{p} CNAME -a.b."),
        format!("{p} CNAME a-.b."),
        format!("{p} CNAME a_b."),
        format!("{p} CNAME \\@"),
        format!("{p} CNAME a\\.b"),
        format!("{p} CNAME a\\046b."),
        format!("{p} PTR a\\.b.c."),
        format!("{p} CNAME a\\."),
        format!("{p} MX 1 \\064"),
        format!("{p} CNAME {LABEL64}."),
        format!("{p} CNAME {long}"),
        format!("{p} CNAME a. b."),
        format!("{p} CNAME \"a.\""),
        format!("{p} PTR"),
        format!("{p} PTR a. b."),
        format!("{p} PTR a!b."),
        format!("{p} HINFO"),
        format!("{p} HINFO one"),
        format!("{p} HINFO one two three"),
        format!("{p} HINFO {s256} x"),
        format!("{p} HINFO x \"{s256}\""),
        format!("{p} MX 10"),
        format!("{p} MX a."),
        format!("{p} MX a. 10"),
        format!("{p} MX 65536 a."),
        format!("{p} MX -1 a."),
        format!("{p} MX 1 a. b."),
        format!("{p} MX 1x a."),
        format!("{p} MX +1 a."),
        format!("{p} MX 0x1 a."),
        format!("{p} MX 1.0 a."),
        format!("{p} TXT"),
        format!("{p} TXT {s256}"),
        format!("{p} TXT \"{s256}\""),
        format!("{p} TXT ok \"{s256}\""),
        format!("{p} TXT \"caf\u{e9} au lait\""),
        format!("{p} TXT ok caf\u{e9}"),
        format!("{p} HINFO vax \"VMS \u{3bb}\""),
        format!("{p} TXT \"open"),
        format!("{p} TXT \"a\\\""),
        format!("{p} TXT \"a\\256b\""),
        format!("{p} TXT (a ( b))"),
        format!("{p} TXT {}", "\"\" ".repeat(65536)),
        format!("{p} TXT {}", format!("\"{}\" ", "y".repeat(255)).repeat(256)),
        format!("{p} WKS 1.2.3.4"),
        format!("{p} WKS TCP 1.2.3.4"),
        format!("{p} WKS 1.2.3.999 TCP"),
        format!("{p} WKS 1.2.3.4 FOO"),
        format!("{p} MD a."),
        format!("{p} NULL a"),
        format!("{p} MINFO a. b."),
        format!("{p} AXFR"),
        format!("{p} * a."),
        format!("$ORIGIN"),
        format!("$INCLUDE"),
        format!("$INCLUDE no-such-file"),
        format!("$FOO 12"),
        format!("$ORIGI a."),
    ];
    let k = r.below(any.len() + if sub { 0 } else { auth.len() });
    let s = if k < any.len() { any[k].clone() } else { auth[k - any.len()].clone() };
    let kind = clip(s.replace(p, "").trim_start_matches(o).trim(), 16);
    (s, kind)
}

/// Breaks one rule; returns what was broken.
pub fn break_one(c: &mut Case, z: &mut ZSet) -> Option<(Files, String)> {
    let (r, stats) = (&mut c.rng, ());
    let _ = stats;
    let name = |s: &str| s.to_string();
    let fancy = r.bool();
    let n_subs = z.subs.len();
    let inside = |r: &mut Rng, z: &ZSet| -> RName {
        for _ in 0..8 {
            let n = cat(&[&vec![short_label(r)], &z.zone]);
            if wire_len(&n) <= 200 && z.in_auth(&n) {
                return n;
            }
        }
        z.zone.clone()
    };
    // An entry put at a random place of a random file of the auth zone.
    let put = |r: &mut Rng, z: &ZSet, line: String| -> Files {
        let mut files = render(r, z, fancy);
        let keys: Vec<String> = files.keys().filter(|k| !k.starts_with("sub")).cloned().collect();
        let k = if r.bool() { "main".to_string() } else { r.pick(&keys).clone() };
        let f = files.get_mut(&k).unwrap();
        fix_eol(f);
        let first = if k == "main" { f.iter().position(|e| e.contains("SOA")).unwrap() + 1 } else { 0 };
        let at = r.range(first, f.len());
        f.insert(at, line + "\n");
        files
    };
    let put_sub = |r: &mut Rng, z: &ZSet, i: usize, line: String| -> Files {
        let mut files = render(r, z, fancy);
        let f = files.get_mut(&format!("sub{}", i)).unwrap();
        fix_eol(f);
        let at = r.range(0, f.len());
        f.insert(at, line + "\n");
        files
    };
    let insert_rec = |r: &mut Rng, z: &mut ZSet, rec: RRec| {
        let at = r.range(1, z.recs.len());
        z.recs.insert(at, rec);
    };
    let a = RData::A([10, 9, 8, 7]);
    let ttl_ok = z.min();
    let soa = z.recs[0].clone();
    let mut set_soa = |z: &mut ZSet, line: String, r: &mut Rng| -> Files {
        let mut files = render(r, z, fancy);
        let f = files.get_mut("main").unwrap();
        let i = f.iter().position(|e| e.contains("SOA")).unwrap();
        f[i] = line + "\n";
        files
    };
    let soa_n = match &soa.data {
        RData::Soa { n, .. } => *n,
        _ => unreachable!(),
    };
    let zt = text(&z.zone);
    let soa_data = format!("a. b. {} {} {} {} {}", soa_n[0], soa_n[1], soa_n[2], soa_n[3], soa_n[4]);
    let t = soa.ttl;
    Some(match r.below(31) {
        0 => {
            z.recs.retain(|r| r.data.rtype() != NS);
            (render(r, z, fancy), name("no NS"))
        }
        1 => {
            let n = inside(r, z);
            if n == z.zone {
                return None;
            }
            insert_rec(r, z, RRec { name: n, ttl: ttl_ok, data: RData::Name(NS, labels("a.")) });
            (render(r, z, fancy), name("NS not at top"))
        }
        2 => {
            let n = outside_name(r, z)?;
            insert_rec(r, z, RRec { name: n, ttl: ttl_ok, data: a });
            (render(r, z, fancy), name("owner outside"))
        }
        3 => {
            if n_subs == 0 {
                return None;
            }
            let s = r.pick(&z.subs).zone.clone();
            let n = if r.bool() { s } else { cat(&[&vec![short_label(r)], &s]) };
            insert_rec(r, z, RRec { name: n, ttl: ttl_ok, data: a });
            (render(r, z, fancy), name("owner in sub zone"))
        }
        4 => {
            if ttl_ok == 0 {
                return None;
            }
            let low = if r.bool() { ttl_ok - 1 } else { r.below(ttl_ok as usize) as u32 };
            let n = inside(r, z);
            insert_rec(r, z, RRec { name: n, ttl: low, data: a });
            (render(r, z, fancy), name("TTL below minimum"))
        }
        5 => {
            if ttl_ok == 0 {
                return None;
            }
            if r.bool() {
                let l = format!("{} {} IN SOA {}", zt, ttl_ok - 1, soa_data);
                (set_soa(z, l, r), name("SOA TTL below minimum"))
            } else {
                // The starting TTL, inherited by the first record, is too low.
                z.ttl0 = ttl_ok - 1;
                let mut files = render(r, z, false);
                let f = files.get_mut("main").unwrap();
                fix_eol(f);
                let i = f.iter().position(|e| e.contains("SOA")).unwrap();
                f.insert(i + 1, format!("{} A 10.9.8.7\n", zt));
                (files, name("inherited TTL below minimum"))
            }
        }
        6 => {
            let k = *r.pick(&["CH", "CS", "HS", "*"]);
            let l = format!("{} {} {} A 10.9.8.7", text(&inside(r, z)), ttl_ok, k);
            (put(r, z, l), name("class"))
        }
        7 => (put(r, z, format!("{} {} IN SOA {}", zt, t, soa_data)), name("second SOA")),
        8 => {
            let l = format!("{} {} IN A 1.2.3.4", zt, t);
            (set_soa(z, l, r), name("SOA missing"))
        }
        9 => {
            let n = match outside_name(r, z) {
                Some(n) if r.bool() => n,
                _ => inside(r, z),
            };
            if n == z.zone {
                return None;
            }
            let l = format!("{} {} IN SOA {}", text(&n), t, soa_data);
            (set_soa(z, l, r), name("SOA not at top"))
        }
        10 => {
            let l = match r.below(9) {
                0 => format!("{} {} IN SOA a. b. 1 2 3 {}", zt, t, soa_n[4]),
                1 => format!("{} {} IN SOA a. b. 1 2 3 4 {} 6", zt, t, soa_n[4]),
                2 => format!("{} {} IN SOA a. 1 2 3 4 {}", zt, t, soa_n[4]),
                3 => format!("{} {} IN SOA a. b. 1 2 3 4 x", zt, t),
                4 => format!("{} {} IN SOA a. b. 4294967296 2 3 4 {}", zt, t, soa_n[4]),
                5 => format!("{} {} IN SOA ( a. b. 1 2 3 4 {}", zt, t, soa_n[4]),
                6 => format!("{} {} IN SOA a. b. 1 2 3 4 {} \"", zt, t, soa_n[4]),
                7 => format!("{} {} IN SOA a. a_b. 1 2 3 4 {}", zt, t, soa_n[4]),
                _ => format!("{} {} IN SOA", zt, t),
            };
            let kind = if l.contains('(') { "(" } else { "" };
            let mut files = set_soa(z, l, r);
            if !kind.is_empty() {
                // Nothing after it may close the parenthesis.
                let f = files.get_mut("main").unwrap();
                let i = f.iter().position(|e| e.contains("SOA")).unwrap();
                f.truncate(i + 1);
                f.push(format!("{} {} IN NS a.\n", zt, ttl_ok));
            }
            (files, "SOA syntax".to_string())
        }
        11 => {
            let l = format!("{} {} SOA {}", zt, t, soa_data);
            (set_soa(z, l, r), name("SOA without class"))
        }
        12 => {
            let k = *r.pick(&["CH", "CS", "HS"]);
            let l = format!("{} {} {} SOA {}", zt, t, k, soa_data);
            (set_soa(z, l, r), name("SOA class"))
        }
        13 | 14 | 15 | 16 | 17 => {
            let p = format!("{} {} IN", text(&inside(r, z)), ttl_ok);
            let (l, kind) = bad_syntax(r, &p, false);
            (put(r, z, l), format!("syntax {}", kind))
        }
        18 => {
            let o = format!("{} IN A 10.9.8.7", ttl_ok);
            let owner = match r.below(9) {
                7 => format!("q\\.{}", zt),
                0 => "a..b".to_string(),
                1 => "-a".into(),
                2 => "a-".into(),
                3 => "a_b".into(),
                4 => LABEL64.into(),
                5 => format!("{0}.{0}.{0}.{0}", &LABEL64[..63]),
                6 => "a\\032b".into(),
                _ => "*".into(),
            };
            (put(r, z, format!("{} {}", owner, o)), format!("owner syntax {}", clip(&owner, 10)))
        }
        19 => {
            let mut opts = vec!["rel".to_string(), "rel.x".into(), "@".into()];
            if let Some(n) = outside_name(r, z) {
                opts.push(text(&n));
                opts.push(text(&n));
            }
            if n_subs > 0 {
                let s = r.pick(&z.subs).zone.clone();
                opts.push(text(&s));
                opts.push(text(&cat(&[&vec![b"q".to_vec()], &s])));
            }
            opts.push(format!("{} x", zt));
            opts.push("a..b.".into());
            let o = r.pick(&opts).clone();
            (put(r, z, format!("$ORIGIN {}", o)), name("$ORIGIN"))
        }
        20 => {
            let mut opts = vec![];
            if let Some(n) = outside_name(r, z) {
                opts.push(text(&n));
            }
            if n_subs > 0 {
                opts.push(text(&r.pick(&z.subs).zone));
            }
            opts.push("a..b.".into());
            opts.push(format!("{} x", zt));
            let o = r.pick(&opts).clone();
            let mut f = put(r, z, format!("$INCLUDE empty {}", o));
            f.insert("empty".into(), vec![]);
            (f, name("$INCLUDE origin"))
        }
        k => {
            if n_subs == 0 {
                return None;
            }
            let i = r.below(n_subs);
            let s = z.subs[i].clone();
            let st = text(&s.zone);
            match k {
                21 => {
                    let d = *r.pick(&["CNAME a.", "MX 1 a.", "TXT x", "HINFO a b", "PTR a.", "SOA a. b. 1 2 3 4 0", "WKS 1.2.3.4 TCP", "FOO a.", "MD a."]);
                    (put_sub(r, z, i, format!("{} {} IN {}", st, s.min, d)), format!("sub zone type {}", d))
                }
                22 => {
                    let n = cat(&[&vec![short_label(r)], &s.zone]);
                    if wire_len(&n) > 255 {
                        return None;
                    }
                    let at = r.range(0, s.recs.len());
                    z.subs[i].recs.insert(at, RRec { name: n, ttl: s.min, data: RData::Name(NS, labels("a.")) });
                    (render(r, z, fancy), name("sub zone NS not at top"))
                }
                23 => {
                    z.subs[i].recs.retain(|r| r.data.rtype() != NS);
                    // Glue without NS would break another rule.
                    let named: Vec<RName> = z.subs.iter().flat_map(|s| ns_targets(&s.recs)).collect();
                    z.subs[i].recs.retain(|r| named.iter().any(|n| name_eq(n, &r.name)));
                    (render(r, z, fancy), name("sub zone without NS"))
                }
                24 => {
                    let named: Vec<RName> = z.subs.iter().flat_map(|s| ns_targets(&s.recs)).collect();
                    let n = match r.below(3) {
                        0 => s.zone.clone(),
                        _ => cat(&[&vec![b"unnamed-zz".to_vec()], &s.zone]),
                    };
                    if wire_len(&n) > 255 || named.iter().any(|x| name_eq(x, &n)) {
                        return None;
                    }
                    let at = r.range(0, s.recs.len());
                    z.subs[i].recs.insert(at, RRec { name: n, ttl: s.min, data: a });
                    (render(r, z, fancy), name("sub zone address of no nameserver"))
                }
                25 => {
                    // Named as a nameserver, but not inside.
                    let n = match r.below(3) {
                        0 => cat(&[&vec![b"nn".to_vec()], &z.zone]),
                        1 => {
                            let mut n = s.zone.clone();
                            n[0].insert(0, b'x');
                            n
                        }
                        _ => labels("outside-zz."),
                    };
                    if !name_ok(&n) || z.subs.iter().any(|s| in_zone(&n, &s.zone)) {
                        return None;
                    }
                    z.subs[i].recs.push(RRec { name: s.zone.clone(), ttl: s.min, data: RData::Name(NS, n.clone()) });
                    z.subs[i].recs.push(RRec { name: n, ttl: s.min, data: a });
                    (render(r, z, fancy), name("sub zone owner outside"))
                }
                26 => {
                    if s.min == 0 {
                        return None;
                    }
                    let low = if r.bool() { s.min - 1 } else { 0 };
                    if r.bool() {
                        let at = r.below(s.recs.len());
                        z.subs[i].recs[at].ttl = low;
                    } else {
                        z.subs[i].ttl0 = low;
                        z.subs[i].recs[0].ttl = low;
                    }
                    (render(r, z, fancy), name("sub zone TTL below minimum"))
                }
                27 | 28 => {
                    // Glue removed or never there.
                    let j = r.below(n_subs);
                    let inner = if r.one_in(4) { z.subs[j].zone.clone() } else { cat(&[&vec![b"glueless-zz".to_vec()], &z.subs[j].zone]) };
                    if wire_len(&inner) > 255 {
                        return None;
                    }
                    for s in &mut z.subs {
                        s.recs.retain(|r| !(r.data.rtype() == A && name_eq(&r.name, &inner)));
                    }
                    if !ns_targets(&z.subs[i].recs).iter().any(|n| name_eq(n, &inner)) {
                        let at = r.range(0, z.subs[i].recs.len());
                        let min = z.subs[i].min;
                        z.subs[i].recs.insert(at, RRec { name: s.zone.clone(), ttl: min, data: RData::Name(NS, inner) });
                    }
                    (render(r, z, fancy), format!("glue missing, {} sub zone", if i == j { "same" } else { "other" }))
                }
                29 => {
                    let k = *r.pick(&["CH", "CS", "HS", "*"]);
                    (put_sub(r, z, i, format!("{} {} {} NS a.", st, s.min, k)), name("sub zone class"))
                }
                _ => {
                    // Addresses of a nameserver that is named, so that only the syntax is wrong.
                    let p = format!("{} {} IN", st, s.min);
                    let (l, kind) = bad_syntax(r, &p, true);
                    (put_sub(r, z, i, l), format!("sub zone syntax {}", kind))
                }
            }
        }
    })
}

fn ns_targets(recs: &[RRec]) -> Vec<RName> {
    recs.iter()
        .filter_map(|r| match &r.data {
            RData::Name(NS, n) => Some(n.clone()),
            _ => None,
        })
        .collect()
}

fn fix_eol(f: &mut Vec<String>) {
    if let Some(l) = f.last_mut() {
        if !l.ends_with('\n') {
            l.push('\n');
        }
    }
}

/// Breaking any one rule makes loading fail.
pub fn n03(c: &mut Case) -> Res {
    let max = *c.rng.pick(&[2, 8, 16]);
    let z0 = gen_zset(&mut c.rng, max);
    // The rules are kept before the change.
    let files = render(&mut c.rng, &z0, true);
    if let Err(e) = load(c, &z0, &files)? {
        return inconclusive(format!("valid set refused: {}", e));
    }
    let mut z = z0.clone();
    let (files, what) = match break_one(c, &mut z) {
        Some(v) => v,
        None => return Ok(()),
    };
    let l = load(c, &z, &files)?;
    if l.is_ok() {
        let sig: String = what.chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').collect();
        return bad(&format!("loaded: {}", sig.trim()), format!("loaded although broken: {}\nzone {} subs {:?}\n{}", what, text(&z.zone), z.subs.iter().map(|s| text(&s.zone)).collect::<Vec<_>>(), clip(&dump(&files), 4000)));
    }
    c.count("broken sets refused");
    c.count(&format!("broken: {}", what));
    c.distinct(mix(fnv(what.as_bytes()), fnv(dump(&files).as_bytes())));
    c.sample(&what, || format!("{:?}\n{}", l.err(), clip(&dump(&files), 1200)));
    Ok(())
}

// ---------------------------------------------------------------- N02

fn hostile_file(r: &mut Rng, name: &str) -> Vec<u8> {
    match r.below(12) {
        0 => {
            let n = r.below(300);
            r.bytes(n)
        }
        1 => {
            // Parentheses without end.
            let n = *r.pick(&[10, 1000, 200_000]);
            let unit: &[u8] = *r.pick(&[&b"()"[..], b"( )", b"(\n)\n", b"(;\n)", b"((", b"))", b"( ", b" )"]);
            let mut v = b"a 5 IN A ".to_vec();
            for _ in 0..n {
                v.extend_from_slice(unit);
            }
            if r.bool() {
                v.extend(b"1.2.3.4\n");
            }
            v
        }
        2 => format!("$INCLUDE {}\n", name).into_bytes(),
        3 => format!("$INCLUDE {}\n$INCLUDE main\n$INCLUDE inc1\n", name).into_bytes(),
        4 => {
            let n = *r.pick(&[1, 255, 256, 70000, 1_000_000]);
            let ch = *r.pick(b"a\"\\ \t;$@1.");
            let mut v = vec![];
            if r.bool() {
                v.extend(b"a 5 IN TXT ");
            }
            v.extend(vec![ch; n]);
            v
        }
        5 => {
            let mut v = b"a 5 IN TXT".to_vec();
            for _ in 0..r.range(1, 300) {
                v.extend(b" \"");
                v.extend(vec![b'x'; r.range(250, 257)]);
                v.extend(b"\"");
            }
            v
        }
        6 => {
            let n = r.below(3);
            vec![0u8; n]
        }
        _ => {
            // Tokens.
            const T: [&str; 64] = [
                "a", "@", " ", " ", "\t", "\n", "\n", "\r\n", "\n ", "IN", "CH", "A", "NS", "CNAME", "SOA", "MX", "TXT", "WKS", "HINFO", "PTR", "1.2.3.4", "300",
                "0", "4294967295", "4294967296", "10", "b.c.", "z.", ".", "(", ")", "\"", "\"x\"", "\\", "\\065", "\\999", ";", "$ORIGIN", "$INCLUDE", "$", "main",
                "inc1", "TCP", "\u{85}", "\u{a0}", "\u{c}", "\u{b}", "é", "\u{2028}", "\0", "-", "_", "*", "IN A 1.2.3.4\n", "a.z. 300 IN A 1.2.3.4\n",
                " 300 A 5.6.7.8\n", "$ORIGIN z.\n", "$ORIGIN b.z.\n", "\"\"", "+5", "TXT \"q\"\n", "MX 1 @\n", "a 300 TXT ( \n", " ) \n",
            ];
            let mut s = String::new();
            for _ in 0..r.range(1, 60) {
                s += *r.pick(&T);
                if r.bool() {
                    s.push(' ');
                }
            }
            let mut v = s.into_bytes();
            if r.one_in(10) && !v.is_empty() {
                let i = r.below(v.len());
                v[i] = r.u8();
            }
            v
        }
    }
}

/// Words that mean something somewhere in a file.
const WORDS: &[&str] = &[
    "A", "NS", "MD", "MF", "CNAME", "SOA", "MB", "MG", "MR", "NULL", "WKS", "PTR", "HINFO", "MINFO", "MX", "TXT", "AXFR", "MAILB", "MAILA", "*", "AAAA", "TYPE1", "IN", "CS", "CH",
    "HS", "ANY", "CLASS1", "$ORIGIN", "$INCLUDE", "$TTL", "@", ".", "..", "a.", "main", "inc1", "sub0", "TCP", "UDP", "0", "1", "-1", "+1", "65535", "65536", "4294967295",
    "4294967296", "18446744073709551616", "1.2.3.4", "1.2.3", "::1", "255.255.255.255", "1h", "\\", "\\.", "\\000", "\\255", "\\256", "\"\"", "\"", "(", ")", ";",
];

fn mutate_text(r: &mut Rng, v: &mut Vec<u8>) {
    for _ in 0..r.range(1, 4) {
        if v.is_empty() {
            return;
        }
        let i = r.below(v.len());
        match r.below(9) {
            // A whole word: replaced, dropped, said twice.
            7 | 8 => {
                let word = |b: &u8| !b" \t\r\n();\"".contains(b);
                if !word(&v[i]) {
                    continue;
                }
                let a = v[..i].iter().rposition(|b| !word(b)).map_or(0, |k| k + 1);
                let b = v[i..].iter().position(|b| !word(b)).map_or(v.len(), |k| i + k);
                let new: Vec<u8> = match r.below(12) {
                    0 => vec![],
                    1 => [&v[a..b], b" ", &v[a..b]].concat(),
                    _ => r.pick(WORDS).bytes().collect(),
                };
                v.splice(a..b, new);
            }
            0 => v[i] = *r.pick(b"()\"\\;@$ \n\t.-0a"),
            1 => {
                v.remove(i);
            }
            2 => v.insert(i, *r.pick(b"()\"\\;@$ \n\t.-0a")),
            3 => v.truncate(i),
            4 => {
                let s: &str = *r.pick(&["\u{85}", "\u{a0}", "\u{2003}", "\u{c}", "\r", "\0", "é", "\u{feff}"]);
                for (k, b) in s.bytes().enumerate() {
                    v.insert(i + k, b);
                }
            }
            5 => {
                let j = (i + r.range(1, 80)).min(v.len());
                let part: Vec<u8> = v[i..j].to_vec();
                let at = r.below(v.len());
                for (k, b) in part.into_iter().enumerate() {
                    v.insert(at + k, b);
                }
            }
            _ => v[i] = r.u8(),
        }
    }
}

/// Asks for everything that was loaded; every reply must encode and decode on both transports.
fn serve_all(c: &mut Case, m: ManagedZone, ctx: &dyn Fn() -> String) -> Res {
    let mut asked: Vec<(RName, u16)> = vec![];
    for z in std::iter::once(&m.auth_zone).chain(&m.sub_zones) {
        for t in TYPES {
            for r in z.get_all_of_type(c_type(t)) {
                let k = (r_name(r.node()), t);
                if asked.last() != Some(&k) {
                    asked.push(k);
                }
            }
        }
    }
    asked.sort();
    asked.dedup();
    c.rng.shuffle(&mut asked);
    asked.truncate(40);
    let mut sizes: Vec<Option<usize>> = vec![];
    for (n, t) in &asked {
        sizes.push(m.auth_zone.get(&c_name(n), c_type(*t)).map(|v| v.len()));
    }
    let h = NameserverHandler(m);
    for (i, (n, t)) in asked.iter().enumerate() {
        let q = RMsg { h: RHdr { id: 7, rd: true, ..Default::default() }, q: vec![RQ { name: n.clone(), qtype: *t }], ..Default::default() };
        let replies = guardv("panic while serving", ctx, || ask(&h, &encode(&q)))?;
        ensure!(replies.len() == 1, "reply count", "{} replies to {} type {}\n{}", replies.len(), text(n), t, ctx());
        for cap in [512usize, 65535] {
            let b = guardv("panic while encoding a reply", ctx, || {
                if cap == 512 {
                    replies[0].encode_to_bytes_trunc()
                } else {
                    replies[0].encode_to_bytes_max(65535)
                }
            })?;
            let b = match b {
                Ok(b) => b,
                Err(e) => return bad("reply not encodable", format!("{:?} for {} type {}\n{}", e, text(n), t, ctx())),
            };
            ensure!(b.len() <= cap, "reply too long", "{} bytes for {} type {}", b.len(), text(n), t);
            let d = match decode_strict(&b) {
                Ok(d) => d.msg,
                Err(e) => return bad("reply not decodable", format!("{} for {} type {}: {}\n{}", e, text(n), t, hexs(&b), ctx())),
            };
            if dns::Message::decode_from_bytes(&b).is_err() {
                return bad("reply not decodable", format!("by the service, for {} type {}: {}\n{}", text(n), t, hexs(&b), ctx()));
            }
            if !d.h.tc {
                let have = d.sec[0].iter().filter(|r| name_eq(&r.name, n) && r.data.rtype() == *t).count();
                if let Some(k) = sizes[i] {
                    if !h.0.sub_zones.iter().any(|s| c_name(n).is_in_zone(&s.zone)) {
                        ensure!(have == k, "records not served", "{} of {} records for {} type {}\n{}", have, k, text(n), t, ctx());
                    }
                }
            }
            c.count("replies encoded");
        }
    }
    Ok(())
}

pub fn n02(c: &mut Case) -> Res {
    let mut z = gen_zset(&mut c.rng, 8);
    let kind = c.rng.below(100);
    let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let label;
    if kind == 0 {
        // An enormous record set, or enormous records.
        z.zone = labels("z.");
        z.subs.clear();
        z.ttl0 = 300;
        let mut v = b"z. 300 IN SOA a. b. 1 2 3 4 5\n 300 NS a.\n".to_vec();
        if c.rng.bool() {
            let n = *c.rng.pick(&[600, 4100, 65535, 65536, 70000]);
            for i in 0..n {
                v.extend(format!("big 300 A 10.{}.{}.{}\n", i >> 16, (i >> 8) & 255, i & 255).bytes());
            }
        } else {
            let n = *c.rng.pick(&[60000, 65000, 65450, 65535, 65536]);
            let mut left: usize = n;
            v.extend(b"big 300 TXT");
            while left > 0 {
                let k = left.min(256);
                v.extend(b" \"");
                v.extend(vec![b'x'; k - 1]);
                v.extend(b"\"");
                left -= k;
            }
            v.extend(b"\n");
        }
        files.insert("main".into(), v);
        label = "enormous sets";
    } else {
        let broken = if c.rng.one_in(5) { break_one(c, &mut z) } else { None };
        let f = match broken {
            Some((f, _)) => f,
            None => render(&mut c.rng, &z, true),
        };
        for (k, v) in &f {
            files.insert(k.clone(), v.concat().into_bytes());
        }
        let keys: Vec<String> = files.keys().cloned().collect();
        if kind < 55 {
            for _ in 0..c.rng.range(1, 2) {
                let k = c.rng.pick(&keys).clone();
                mutate_text(&mut c.rng, files.get_mut(&k).unwrap());
            }
            label = "mutated files";
        } else {
            // Hostile content, often after a valid start, sometimes behind an include.
            z.zone = labels("z.");
            z.ttl0 = 300;
            let soa = b"z. 300 IN SOA a. b. 1 2 3 4 5\nz. 300 IN NS a.\n".to_vec();
            let mut v = if c.rng.pct(80) { soa } else { vec![] };
            let n = c.rng.range(0, 3);
            if c.rng.one_in(3) {
                v.extend(b"$INCLUDE inc1\n");
                let h = hostile_file(&mut c.rng, "inc1");
                files.insert("inc1".into(), h);
            }
            for _ in 0..n {
                let h = hostile_file(&mut c.rng, "main");
                v.extend(h);
                if c.rng.bool() {
                    v.push(b'\n');
                }
            }
            files.insert("main".into(), v);
            for s in &mut z.subs {
                s.zone = cat(&[&vec![s.zone[0].clone()], &labels("z.")]);
            }
            for i in 0..z.subs.len() {
                if c.rng.bool() {
                    let mut h = if c.rng.bool() { format!("{} 4294967295 IN NS a.\n", text(&z.subs[i].zone)).into_bytes() } else { vec![] };
                    h.extend(hostile_file(&mut c.rng, "sub0"));
                    files.insert(format!("sub{}", i), h);
                }
            }
            label = "hostile files";
        }
    }
    std::env::set_current_dir(c.dir).unwrap();
    for (k, v) in &files {
        if k.contains('/') {
            let _ = fs::create_dir_all("dir");
        }
        fs::write(k, v).unwrap();
    }
    let p = params(&z, &mut c.rng);
    let show = || {
        let mut s = String::new();
        for (k, v) in &files {
            s += &format!("--- {}\n{}\n", k, clip(&String::from_utf8_lossy(v), 1500));
        }
        s
    };
    let res = guardv("panic while loading", &show, || parse_zone_files(p));
    remove_files(".", files.keys());
    let res = res?;
    c.count(label);
    let mut h = 0;
    for v in files.values() {
        h = mix(h, fnv(v));
    }
    match res {
        Ok(m) => {
            c.count("loaded");
            if label == "enormous sets" {
                c.count("enormous sets loaded");
            }
            serve_all(c, m, &show)?;
            c.distinct(mix(h, 1));
        }
        Err(_) => {
            c.count("refused");
            c.distinct(mix(h, 2));
        }
    }
    c.sample(label, show);
    Ok(())
}

// ---------------------------------------------------------------- N04

/// What the reference nameserver replies.
pub struct Answer {
    pub kind: &'static str,
    pub rcode: u8,
    pub aa: Option<bool>,
    pub ans: Vec<RRec>,
    pub auth: Vec<RRec>,
    pub add: Option<Vec<RRec>>,
}

pub fn reference(z: &ZSet, q: &RQ) -> Answer {
    if !in_zone(&q.name, &z.zone) {
        return Answer { kind: "refused", rcode: 5, aa: None, ans: vec![], auth: vec![], add: Some(vec![]) };
    }
    for s in &z.subs {
        if in_zone(&q.name, &s.zone) {
            let auth: Vec<RRec> = s.recs.iter().filter(|r| r.data.rtype() == NS).map(norm).collect();
            let targets = ns_targets(&s.recs);
            let mut add = vec![];
            for s2 in &z.subs {
                for r in &s2.recs {
                    if r.data.rtype() == A && targets.iter().any(|t| name_eq(t, &r.name)) {
                        add.push(norm(r));
                    }
                }
            }
            return Answer { kind: "referral", rcode: 0, aa: Some(false), ans: vec![], auth, add: Some(add) };
        }
    }
    let of = |t: u16| -> Vec<RRec> { z.recs.iter().filter(|r| name_eq(&r.name, &q.name) && r.data.rtype() == t).map(norm).collect() };
    let ans = of(q.qtype);
    if !ans.is_empty() {
        return Answer { kind: "answer", rcode: 0, aa: Some(true), ans, auth: vec![], add: None };
    }
    let ans = of(CNAME);
    if !ans.is_empty() {
        return Answer { kind: "alias", rcode: 0, aa: Some(true), ans, auth: vec![], add: None };
    }
    Answer { kind: "name error", rcode: 3, aa: Some(true), ans: vec![], auth: vec![norm(&z.recs[0])], add: None }
}

fn sorted(mut v: Vec<RRec>) -> Vec<RRec> {
    v.sort_by_key(|r| format!("{:?}", r));
    v
}

/// Compares a decoded reply with the reference answer.
pub fn judge_answer(z: &ZSet, q: &RQ, m: &RMsg) -> Result<&'static str, Bad> {
    let want = reference(z, q);
    let ctx = || format!("query {} type {}; reply {:?}", text(&q.name), q.qtype, m);
    ensure!(m.h.rcode == want.rcode, "response code", "{} instead of {} ({}); {}", m.h.rcode, want.rcode, want.kind, ctx());
    if let Some(aa) = want.aa {
        ensure!(m.h.aa == aa, "authoritative flag", "{} for {}; {}", m.h.aa, want.kind, ctx());
    }
    let got: Vec<Vec<RRec>> = (0..3).map(|i| sorted(m.sec[i].iter().map(norm).collect())).collect();
    ensure!(got[0] == sorted(want.ans.clone()), "answers", "wanted {:?}; {}", want.ans, ctx());
    ensure!(got[1] == sorted(want.auth.clone()), "authorities", "wanted {:?}; {}", want.auth, ctx());
    if let Some(add) = want.add {
        ensure!(got[2] == sorted(add.clone()), "additionals", "wanted {:?}; {}", add, ctx());
    }
    Ok(want.kind)
}

pub fn gen_query(r: &mut Rng, z: &ZSet) -> RQ {
    let mut n = match r.below(12) {
        0 => outside_name(r, z).unwrap_or(vec![]),
        1 => vec![],
        2 => gen_name(r),
        3 | 4 if !z.subs.is_empty() => {
            let s = r.pick(&z.subs);
            match r.below(4) {
                0 => s.zone.clone(),
                1 => r.pick(&s.recs).name.clone(),
                2 => {
                    let mut n = s.zone.clone();
                    n[0].insert(0, b'x');
                    n
                }
                _ => cat(&[&vec![short_label(r)], &s.zone]),
            }
        }
        5 => {
            let n = r.pick(&z.recs).name.clone();
            cat(&[&vec![short_label(r)], &n])
        }
        6 => {
            let n = r.pick(&z.recs).name.clone();
            if n.is_empty() { n } else { n[1..].to_vec() }
        }
        7 => z.zone.clone(),
        _ => r.pick(&z.recs).name.clone(),
    };
    if !name_ok(&n) {
        n = z.zone.clone();
    }
    if r.one_in(4) {
        for l in &mut n {
            for c in l.iter_mut() {
                if c.is_ascii_alphabetic() && r.bool() {
                    *c ^= 0x20;
                }
            }
        }
    }
    let qtype = if r.one_in(3) {
        let types: Vec<u16> = z.recs.iter().filter(|x| name_eq(&x.name, &n)).map(|x| x.data.rtype()).collect();
        if types.is_empty() { *r.pick(&TYPES) } else { *r.pick(&types) }
    } else {
        *r.pick(&TYPES)
    };
    RQ { name: n, qtype }
}

pub fn n04(c: &mut Case) -> Res {
    let max = *c.rng.pick(&[4, 12, 30]);
    let z = gen_zset(&mut c.rng, max);
    let fancy = c.rng.bool();
    let files = render(&mut c.rng, &z, fancy);
    let m = match load(c, &z, &files)? {
        Ok(m) => m,
        Err(e) => return inconclusive(format!("valid set refused: {}", e)),
    };
    let h = NameserverHandler(m);
    for _ in 0..c.rng.range(5, 40) {
        let q = gen_query(&mut c.rng, &z);
        let msg = RMsg { h: RHdr { id: c.rng.u16(), rd: c.rng.bool(), ..Default::default() }, q: vec![q.clone()], ..Default::default() };
        let replies = guardv("panic while serving", || format!("{:?}\n{}", q, dump(&files)), || ask(&h, &encode(&msg)))?;
        ensure!(replies.len() == 1, "reply count", "{} replies to {:?}", replies.len(), q);
        let b = match guardv("panic while encoding", || format!("{:?}", q), || replies[0].encode_to_bytes())? {
            Ok(b) => b,
            Err(e) => return bad("reply not encodable", format!("{:?} {:?}", e, q)),
        };
        let d = match decode_strict(&b) {
            Ok(d) => d.msg,
            Err(e) => return bad("reply not decodable", format!("{} {:?} {}", e, q, hexs(&b))),
        };
        let kind = judge_answer(&z, &q, &d).map_err(|b| match b {
            Bad::Violation(s, d) => Bad::Violation(s, format!("{}\nzone {} subs {:?}\n{}", d, text(&z.zone), z.subs.iter().map(|s| text(&s.zone)).collect::<Vec<_>>(), clip(&dump(&files), 2500))),
            b => b,
        })?;
        c.count(kind);
        if kind == "referral" && !d.sec[2].is_empty() {
            c.count("referral with glue");
        }
        c.distinct(mix(fnv(&b[2..]), fnv(kind.as_bytes())));
        c.sample(kind, || format!("{:?} -> {:?}", q, d));
    }
    Ok(())
}
