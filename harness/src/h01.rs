//! H01: every request gets one matching reply, or none if it cannot be read.
use crate::ensure;
use crate::mock::*;
use crate::res::*;
use crate::run::*;
use crate::serv::*;
use crate::util::*;
use crate::wire::*;
use crate::world::*;
use crate::zone::*;
use ariadne_dns::nameserver::NameserverHandler;
use ariadne_dns::shared::net::DnsHandler;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cat {
    /// A proper query: neither of the error codes below.
    Query,
    NotImp,
    FormErr,
    /// One of the two.
    Err,
    Any,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    None,
    /// Operation codes or response codes nobody defined: no reply or an error.
    Maybe,
    One(Cat),
}

/// What a request deserves, judged from its bytes alone.
fn classify(b: &[u8]) -> Want {
    if b.len() < 12 || b[2] & 0x80 != 0 {
        return Want::None;
    }
    let (h, c) = match decode_header(b) {
        Ok(x) => x,
        Err(_) => return Want::Maybe,
    };
    if h.op != 0 {
        let mut x = b.to_vec();
        x[2] &= 0x87;
        return Want::One(match classify(&x) {
            Want::One(Cat::Query) => Cat::NotImp,
            _ => Cat::Err,
        });
    }
    let d = match decode_strict(b) {
        Ok(d) => d,
        Err(_) => return Want::One(Cat::Err),
    };
    if d.soft.is_some() || d.used < b.len() || h.z != 0 || h.aa || h.tc || h.ra || h.rcode != 0 {
        return Want::One(Cat::Any);
    }
    let plain = c[0] == 1 && d.msg.q.len() == 1 && c[1] == 0 && c[2] == 0;
    if plain {
        // Something beyond the question is tolerable, not required to be.
        return Want::One(if d.msg.sec[2].is_empty() { Cat::Query } else { Cat::Any });
    }
    if d.skipped == 0 {
        return Want::One(Cat::FormErr);
    }
    Want::One(if d.msg.q.len() == 1 { Cat::Any } else { Cat::Err })
}

fn raw_query(id: u16, q: &RQ, qtype: u16, class: u16, rd: bool) -> Vec<u8> {
    let mut b = vec![];
    put_header(&mut b, &RHdr { id, rd, ..Default::default() }, [1, 0, 0, 0]);
    put_name(&mut b, &q.name);
    b.extend(qtype.to_be_bytes());
    b.extend(class.to_be_bytes());
    b
}

fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        match r.below(6) {
            0 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            1 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] = *r.pick(&[0, 1, 0x3f, 0x40, 0x80, 0xc0, 0xff]);
            }
            2 => {
                let n = r.below(b.len() + 1);
                b.truncate(n);
            }
            3 => {
                let i = r.below(b.len() + 1);
                let v = r.u8();
                b.insert(i, v);
            }
            4 => {
                let n = r.range(1, 20);
                let x = r.bytes(n);
                b.extend(x);
            }
            _ if b.len() >= 12 => {
                let i = r.range(4, 11);
                b[i] = *r.pick(&[0, 0, 1, 2, 255]);
            }
            _ => {}
        }
    }
}

/// A request, and what it deserves if that is known better than from the bytes.
fn gen_request(r: &mut Rng, id: u16, q: &RQ, queries_only: bool) -> (Vec<u8>, Option<Want>, &'static str) {
    let x = gen_any(r, id, q, queries_only);
    // No transport carries more.
    if x.0.len() > 65535 {
        return gen_any(r, id, q, true);
    }
    x
}

fn gen_any(r: &mut Rng, id: u16, q: &RQ, queries_only: bool) -> (Vec<u8>, Option<Want>, &'static str) {
    let rd = r.bool();
    let plain = RMsg { h: RHdr { id, rd, ..Default::default() }, q: vec![q.clone()], ..Default::default() };
    let mut pool = vec![q.name.clone()];
    if queries_only {
        return (encode(&plain), Some(Want::One(Cat::Query)), "query");
    }
    match r.below(20) {
        0 | 1 => (encode(&plain), Some(Want::One(Cat::Query)), "query"),
        2 => {
            // Extended DNS: additional records of types unknown here, up to what a datagram carries.
            let mut b = encode(&plain);
            let k = *r.pick(&[1, 1, 2, 3]);
            b[11] = k as u8;
            let full = r.one_in(3);
            for i in 0..k {
                let room = 512usize.saturating_sub(b.len() + 11 * (k - i));
                let n = if full && i + 1 == k { room - (r.below(3) / 2).min(room) } else { r.below(30).min(room) };
                b.push(0);
                b.extend(r.pick(&[41u16, 41, 250, 28, 24, 65280]).to_be_bytes());
                b.extend(r.u16().to_be_bytes());
                b.extend([0, 0, 0, 0]);
                b.extend((n as u16).to_be_bytes());
                let x = r.bytes(n);
                b.extend(x);
            }
            (b, Some(Want::One(Cat::Query)), "query with options")
        }
        3 | 4 => {
            let mut b = encode(&plain);
            let op = *r.pick(&[1u8, 1, 2, 2, 3, 4, 5, 9, 15]);
            b[2] |= op << 3;
            (b, Some(if op < 3 { Want::One(Cat::NotImp) } else { Want::Maybe }), if op < 3 { "other operation" } else { "undefined operation" })
        }
        5 | 6 => {
            let mut b = if r.bool() { encode(&gen_msg(r, 2)) } else { encode(&plain) };
            b[0] = (id >> 8) as u8;
            b[1] = id as u8;
            if r.one_in(3) {
                mutate(r, &mut b);
            }
            if b.len() > 2 {
                b[2] |= 0x80;
            }
            (b, None, "response")
        }
        7 => {
            let mut m = plain;
            m.q.clear();
            for _ in 0..*r.pick(&[0, 2, 2, 3, 20]) {
                m.q.push(if r.bool() { q.clone() } else { RQ { name: gen_rel_name(r, &mut pool), qtype: *r.pick(&TYPES) } });
            }
            (encode(&m), Some(Want::One(Cat::FormErr)), "number of questions")
        }
        8 => {
            let mut m = plain;
            let s = r.below(2);
            for _ in 0..r.range(1, 3) {
                m.sec[s].push(gen_rec(r, &mut pool));
            }
            if r.bool() {
                m.sec[2].push(gen_rec(r, &mut pool));
            }
            (encode(&m), Some(Want::One(Cat::FormErr)), "records in a query")
        }
        9 | 10 => {
            let class = *r.pick(&[2u16, 3, 4, 255, 255, 0, 5, 254, 65535]);
            let b = raw_query(id, q, q.qtype, class, rd);
            (b, Some(Want::One(if matches!(class, 2 | 3 | 4 | 255) { Cat::NotImp } else { Cat::Err })), "class")
        }
        11 | 12 => {
            let t = if r.bool() { *r.pick(&UNSUPPORTED) } else { *r.pick(&[0, 28, 33, 41, 43, 17, 99, 251, 256, 65535]) };
            (raw_query(id, q, t, 1, rd), Some(Want::One(if UNSUPPORTED.contains(&t) { Cat::NotImp } else { Cat::Err })), if UNSUPPORTED.contains(&t) { "unsupported type" } else { "unknown type" })
        }
        13 => {
            let mut b = encode(&plain);
            let n = r.below(b.len());
            b.truncate(n);
            (b, None, "cut short")
        }
        14 => {
            let mut b = encode(&plain);
            b[2] |= *r.pick(&[0, 1, 2, 4, 6]);
            b[3] = r.u8();
            (b, None, "odd flags")
        }
        15 => {
            let mut b = encode(&gen_msg(r, 3));
            b[0] = (id >> 8) as u8;
            b[1] = id as u8;
            b[2] &= 0x7f;
            (b, None, "any message")
        }
        16 => {
            let most = *r.pick(&[4, 20, 100, 500]);
            let n = r.range(0, most);
            let mut b = r.bytes(n);
            if r.bool() && b.len() > 2 {
                b[2] &= 0x07;
            }
            (b, None, "random bytes")
        }
        17 => {
            // Illegal names.
            let mut b = vec![];
            put_header(&mut b, &plain.h, [1, 0, 0, 0]);
            match r.below(5) {
                0 => b.extend([0xc0, 12]),
                1 => b.extend([0xc0, 0xff]),
                2 => b.extend([0x80, 1, 0]),
                3 => b.extend([3, b'a', b'.', b'b', 0]),
                _ => {
                    for _ in 0..r.range(4, 7) {
                        b.push(63);
                        b.extend([b'x'; 63]);
                    }
                    b.push(0)
                }
            }
            b.extend([0, 1, 0, 1]);
            (b, None, "illegal name")
        }
        _ => {
            let mut b = encode(&plain);
            mutate(r, &mut b);
            (b, None, "mutated")
        }
    }
}

/// Judges the replies, as bytes. `cut`: a set truncation flag is in order.
fn judge(req: &[u8], want: Want, replies: &[Vec<u8>], recursive: bool, cut: bool, kind: &str) -> Result<Option<u8>, Bad> {
    let show = || format!("request ({}) {} -> {:?}, replies {:?}", kind, hexs(req), want, replies.iter().map(|b| hexs(b)).collect::<Vec<_>>());
    let n = replies.len();
    match want {
        Want::None => {
            ensure!(n == 0, "reply to what deserves none", "{}", show());
            return Ok(None);
        }
        Want::Maybe if n == 0 => return Ok(None),
        _ => {}
    }
    ensure!(n > 0, "no reply", "{}", show());
    ensure!(n == 1, "several replies", "{}", show());
    let b = &replies[0];
    ensure!(b.len() >= 12, "reply too short", "{}", show());
    let op = b[2] >> 3 & 15;
    let mut x = b.clone();
    x[2] &= 0x87;
    let d = match decode_strict(&x) {
        Ok(d) => d,
        Err(e) => return bad("reply not well formed", format!("{}: {}", e, show())),
    };
    ensure!(d.used == b.len() && d.skipped == 0, "reply not well formed", "{} bytes of {} used, {} unknown: {}", d.used, b.len(), d.skipped, show());
    let h = &d.msg.h;
    ensure!(h.qr, "not a response", "{}", show());
    ensure!(b[..2] == req[..2], "other id", "{}", show());
    ensure!(op == req[2] >> 3 & 15, "other operation code", "{}", show());
    ensure!(h.rd == (req[2] & 1 != 0), "recursion desired flag", "{}", show());
    ensure!(h.ra == recursive, "recursion available flag", "{}", show());
    ensure!(h.z == 0, "reserved bits", "{}", show());
    ensure!(!h.tc || cut, "truncation flag", "{}", show());
    if !d.msg.q.is_empty() {
        let mut y = req.to_vec();
        y[2] &= 0x87;
        match decode_strict(&y) {
            Ok(r) => ensure!(
                r.msg.q.len() == d.msg.q.len() && r.msg.q.iter().zip(&d.msg.q).all(|(a, b)| a.qtype == b.qtype && name_eq(&a.name, &b.name)) || h.tc && d.msg.q.len() < r.msg.q.len(),
                "other questions",
                "{}",
                show()
            ),
            // Undecodable as a whole: only what can be read of it.
            Err(_) => {}
        }
    }
    let code = h.rcode;
    let cat = match want {
        Want::One(c) => c,
        _ => Cat::Err,
    };
    let ok = match cat {
        Cat::Query => code != 1 && code != 4,
        Cat::NotImp => code == 4,
        Cat::FormErr => code == 1,
        Cat::Err => code == 1 || code == 4,
        Cat::Any => true,
    };
    ensure!(ok, "response code", "code {} for {:?}: {}", code, cat, show());
    if cat == Cat::Query {
        ensure!(d.msg.q.len() == 1 || d.msg.q.is_empty(), "other questions", "{}", show());
    }
    if code == 1 || code == 4 {
        ensure!(d.msg.sec.iter().all(|s| s.is_empty()), "records with an error", "{}", show());
    }
    Ok(Some(code))
}

pub fn h01(c: &mut Case) -> Res {
    let recursive = c.rng.one_in(3);
    let sockets = c.rng.one_in(if c.thorough { 3 } else { 5 });
    let n = if sockets { c.rng.range(5, 24) } else { c.rng.range(5, 40) };
    if recursive {
        let mut r = c.rng.clone();
        let o = GenOpt { zones: (1, 4), ..Default::default() };
        let w = gen(&mut r, &o);
        let p = gen_params(&mut r);
        let qs: Vec<RQ> = (0..n).map(|_| gen_question(&w, &mut r)).collect();
        let rig = Rig::new(w, p, gen_trace(&mut r), 0);
        c.rng = r;
        if sockets {
            let Rig { net, h, .. } = rig;
            over_sockets(c, Svc::Res(h, net), qs)
        } else {
            let net = rig.net.clone();
            let r = direct(c, &rig.h, true, qs, &mut |f| match net.run(f) {
                Ok(()) => Ok(()),
                Err(p) => Err(p),
            });
            absorb(c, &net);
            r
        }
    } else {
        let max = *c.rng.pick(&[4, 12, 30]);
        let z = gen_zset(&mut c.rng, max);
        let files = render(&mut c.rng, &z, false);
        let m = match load(c, &z, &files)? {
            Ok(m) => m,
            Err(e) => return inconclusive(format!("valid set refused: {}", e)),
        };
        let qs: Vec<RQ> = (0..n).map(|_| gen_query(&mut c.rng, &z)).collect();
        let h = NameserverHandler(m);
        if sockets {
            over_sockets(c, Svc::Name(h), qs)
        } else {
            direct(c, &h, false, qs, &mut |f| guard(f))
        }
    }
}

/// Requests handed to the handler, replies taken from it.
fn direct<H: DnsHandler>(c: &mut Case, h: &H, recursive: bool, qs: Vec<RQ>, run: &mut dyn FnMut(&mut dyn FnMut()) -> Result<(), String>) -> Res {
    for q in qs {
        let id = c.rng.u16();
        let (b, want, kind) = gen_request(&mut c.rng, id, &q, false);
        let w = match (classify(&b), want) {
            (Want::None, _) => Want::None,
            (_, Some(w)) => w,
            (w, None) => w,
        };
        let fails = c.rng.one_in(20);
        let io = c.rng.one_in(60);
        let resp = Resp(Default::default(), fails);
        let mut f = || {
            if io {
                h.handle_request(IoErrReq, resp.clone())
            } else {
                h.handle_request(Req(b.clone()), resp.clone())
            }
        };
        if let Err(p) = run(&mut f) {
            return bad("panic", format!("{} on request ({}) {}", p, kind, hexs(&b)));
        }
        let got = std::mem::take(&mut *resp.0.lock().unwrap());
        if io {
            ensure!(got.is_empty(), "reply to what deserves none", "a request that could not be read got {:?}", got);
            c.count("requests that could not be received");
            continue;
        }
        let mut bytes = vec![];
        for m in &got {
            match guardv("panic while encoding", || format!("{:?}", m), || m.encode_to_bytes())? {
                Ok(b) => bytes.push(b),
                Err(e) => return bad("reply not encodable", format!("{:?}: {:?}", e, m)),
            }
        }
        let code = judge(&b, w, &bytes, recursive, false, kind)?;
        note(c, &b, w, kind, code, recursive, if fails { "replies that could not be sent" } else { "handed over" });
    }
    Ok(())
}

fn note(c: &mut Case, b: &[u8], w: Want, kind: &str, code: Option<u8>, recursive: bool, how: &str) {
    c.count(&format!("kind: {}", kind));
    c.count(how);
    c.count(match w {
        Want::None => "deserve no reply",
        Want::Maybe => "deserve no reply or an error",
        Want::One(Cat::Query) => "proper queries",
        Want::One(Cat::NotImp) => "deserve 'not implemented'",
        Want::One(Cat::FormErr) => "deserve 'format error'",
        Want::One(Cat::Err) => "deserve one of the errors",
        Want::One(Cat::Any) => "deserve any reply",
    });
    match code {
        Some(k) => c.count(&format!("{} replied with code {}", if recursive { "resolver" } else { "nameserver" }, k)),
        None => c.count(if recursive { "resolver gave no reply" } else { "nameserver gave no reply" }),
    }
    c.distinct(mix(fnv(&b[b.len().min(2)..]), mix(code.map_or(99, |k| k as u64), recursive as u64)));
}

/// The same over the real servers.
fn over_sockets(c: &mut Case, svc: Svc, qs: Vec<RQ>) -> Res {
    let s = server(1, 2, Duration::from_secs(20), c.shard % 2 == 1)?;
    let recursive = matches!(svc, Svc::Res(..));
    let svc = s.front.set(svc);
    let r = sockets(c, s, &svc, recursive, qs);
    s.front.set(Svc::Idle);
    if let Svc::Res(_, net) = &*svc {
        absorb(c, net);
    }
    r
}

fn sockets(c: &mut Case, s: &Server, svc: &Svc, recursive: bool, qs: Vec<RQ>) -> Res {
    let mut reqs: Vec<(Vec<u8>, Want, &'static str)> = vec![];
    let first = c.rng.range(0, 60_000) as u16;
    for (k, q) in qs.iter().enumerate() {
        let id = first + k as u16;
        let (mut b, want, kind) = gen_request(&mut c.rng, id, q, false);
        if b.len() >= 2 {
            b[0] = (id >> 8) as u8;
            b[1] = id as u8;
        }
        let w = match (classify(&b), want) {
            (Want::None, _) => Want::None,
            (_, Some(w)) => w,
            (w, None) => w,
        };
        reqs.push((b, w, kind));
    }
    // The full replies of the nameserver, to know whether something had to be cut.
    let full = |b: &[u8]| -> usize {
        match svc {
            Svc::Name(h) => guard(|| ask(h, b)).ok().and_then(|v| v.first().and_then(|m| m.encode_to_bytes().ok())).map_or(0, |b| b.len()),
            _ => 1000,
        }
    };
    let panicked = || s.front.panics.lock().unwrap().pop();
    let small: Vec<(Vec<u8>, Want, &'static str)> = reqs.iter().filter(|x| x.0.len() <= 512).cloned().collect();
    let (by, odd) = match udp_batch(s, &small.iter().map(|x| x.0.clone()).collect::<Vec<_>>()) {
        Ok(x) => x,
        Err(e) => return bad("no longer answering", format!("{}: {:?} {:?}", e, panicked(), small.iter().map(|x| hexs(&x.0)).collect::<Vec<_>>())),
    };
    if let Some(p) = panicked() {
        return bad("panic", format!("{} on one of {:?}", p, small.iter().map(|x| hexs(&x.0)).collect::<Vec<_>>()));
    }
    ensure!(odd.is_empty(), "stray datagrams", "{:?}", odd.iter().map(|b| hexs(b)).collect::<Vec<_>>());
    for (k, v) in &by {
        ensure!(small.iter().any(|x| x.0.len() >= 2 && x.0[..2] == k.to_be_bytes()), "reply with an id nobody used", "{:?}", v.iter().map(|b| hexs(b)).collect::<Vec<_>>());
    }
    for (b, w, kind) in &small {
        let id = if b.len() >= 2 { (b[0] as u16) << 8 | b[1] as u16 } else { 0xfffe };
        let mut got = by.get(&id).cloned().unwrap_or_default();
        // Datagrams may be lost: ask again before complaining.
        for _ in 0..2 {
            if got.is_empty() && matches!(w, Want::One(_)) {
                if let Ok((by, _)) = udp_batch(s, &[b.clone()]) {
                    got = by.get(&id).cloned().unwrap_or_default();
                    c.count("datagrams sent again");
                }
            }
        }
        for g in &got {
            ensure!(g.len() <= 512, "datagram too long", "{} bytes to {}", g.len(), hexs(b));
        }
        let cut = full(b) > 512;
        let code = judge(b, *w, &got, recursive, cut, kind)?;
        note(c, b, *w, kind, code, recursive, "over UDP");
    }
    for (b, w, kind) in reqs.iter().take(12) {
        let style = c.rng.below(8);
        let got = match s.tcp(b, &mut c.rng, style) {
            Ok(v) => v,
            // A server may refuse to read on.
            Err(e) if e.starts_with("send") && matches!(w, Want::None | Want::Maybe) => {
                let _ = e;
                vec![]
            }
            Err(e) => return bad("TCP", format!("{} on request ({}) {}", e, kind, hexs(b))),
        };
        if let Some(p) = panicked() {
            return bad("panic", format!("{} on {}", p, hexs(b)));
        }
        let code = judge(b, *w, &got, recursive, false, kind)?;
        note(c, b, *w, kind, code, recursive, "over TCP");
    }
    Ok(())
}
