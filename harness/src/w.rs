//! W01..W06: wire format.
use crate::ensure;
use crate::run::*;
use crate::util::*;
use crate::wire::*;
use ariadne_dns::shared::buffer::BitsBuf;
use ariadne_dns::shared::dns;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- byte generators

/// Mutates encoded messages, keeping them near the grammar.
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    if b.is_empty() {
        b.push(r.u8());
        return;
    }
    match r.below(14) {
        0 => {
            let i = r.below(b.len());
            b[i] = r.u8();
        }
        1 => {
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
        }
        2 => {
            let n = r.below(b.len() + 1);
            b.truncate(n);
        }
        3 => {
            let n = r.range(1, 12);
            let x = r.bytes(n);
            b.extend(x);
        }
        4 => {
            // Counts.
            if b.len() >= 12 {
                let i = 4 + 2 * r.below(4);
                let v = match r.below(5) {
                    0 => 65535,
                    1 => (b[i + 1] as u16).wrapping_add(1),
                    2 => (b[i + 1] as u16).wrapping_sub(1),
                    3 => 0,
                    _ => r.u16() & 7,
                };
                b[i] = (v >> 8) as u8;
                b[i + 1] = v as u8;
            }
        }
        5 => {
            // A pointer somewhere, to anywhere.
            let i = r.below(b.len());
            let t = match r.below(6) {
                0 => i,
                1 => i.saturating_sub(r.below(8)),
                2 => i + r.below(8),
                3 => r.below(0x4000),
                4 => b.len().saturating_sub(r.below(3)),
                _ => r.below(b.len()),
            } & 0x3fff;
            b[i] = 0xc0 | (t >> 8) as u8;
            if i + 1 < b.len() {
                b[i + 1] = t as u8;
            }
        }
        6 => {
            let i = r.below(b.len());
            b.remove(i);
        }
        7 => {
            let i = r.below(b.len() + 1);
            let v = *r.pick(&[0u8, 1, 63, 64, 0x80, 0xc0, 0xc1, 0xff, 12]);
            b.insert(i, v);
        }
        8 => {
            // A length-like byte.
            let i = r.below(b.len());
            b[i] = *r.pick(&[0u8, 1, 62, 63, 64, 127, 128, 191, 192, 255]);
        }
        9 => {
            // A 16 bit field.
            if b.len() > 2 {
                let i = r.below(b.len() - 1);
                let v = r.edge_u16();
                b[i] = (v >> 8) as u8;
                b[i + 1] = v as u8;
            }
        }
        10 => {
            // Copy a slice elsewhere.
            let a = r.below(b.len());
            let n = r.below(b.len() - a).min(40);
            let s = b[a..a + n].to_vec();
            let i = r.below(b.len() + 1);
            b.splice(i..i, s);
        }
        11 => {
            if b.len() >= 4 {
                let i = r.range(2, 3);
                b[i] = r.u8();
            }
        }
        12 => {
            // Append a raw record-like thing and count it.
            if b.len() >= 12 {
                let s = 1 + r.below(3);
                let c = ((b[4 + 2 * s] as u16) << 8 | b[5 + 2 * s] as u16).wrapping_add(1);
                b[4 + 2 * s] = (c >> 8) as u8;
                b[5 + 2 * s] = c as u8;
                let x = raw_record(r);
                b.extend(x);
            }
        }
        _ => {
            let i = r.below(b.len());
            b[i] = b[i].wrapping_add(1);
        }
    }
}

/// A record of any type number with data that may or may not fit.
pub fn raw_record(r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    match r.below(4) {
        0 => o.push(0),
        1 => o.extend([0xc0, 12]),
        2 => o.extend([1, b'a', 0]),
        _ => put_name(&mut o, &gen_name(r)),
    }
    let t: u16 = match r.below(4) {
        0 => *r.pick(&TYPES),
        1 => *r.pick(&UNSUPPORTED),
        2 => *r.pick(&[0, 17, 28, 33, 41, 46, 99, 251, 256, 65535]),
        _ => r.below(40) as u16,
    };
    o.extend(t.to_be_bytes());
    let c: u16 = if r.pct(75) { 1 } else { *r.pick(&[0, 2, 3, 4, 5, 255, 254, 1232]) };
    o.extend(c.to_be_bytes());
    o.extend(r.u32().to_be_bytes());
    let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 16, 22, 40]);
    let d = r.bytes(n);
    let l = if r.pct(70) { n as u16 } else { r.edge_u16() };
    o.extend(l.to_be_bytes());
    o.extend(d);
    o
}

/// Bytes made only of pointers, lengths and a few letters.
pub fn pointer_soup(r: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    let n = match r.below(5) {
        0 => r.range(12, 20),
        1 => r.range(200, 700),
        2 => r.range(10000, 20000),
        _ => r.range(20, 120),
    };
    let qc = r.range(0, 2) as u16;
    put_header(&mut b, &gen_hdr(r), [qc, r.range(0, 3) as u16, 0, r.range(0, 1) as u16]);
    while b.len() < n {
        let here = b.len();
        match r.below(7) {
            0 | 1 => {
                let t = match r.below(7) {
                    0 => here,
                    1 => here + 1,
                    2 => here + 2,
                    3 => 12,
                    4 => here.saturating_sub(2),
                    5 => n + r.below(4),
                    _ => r.below(n + 2),
                } & 0x3fff;
                b.push(0xc0 | (t >> 8) as u8);
                b.push(t as u8);
            }
            2 => b.push(0),
            3 => {
                let k = r.range(1, 5);
                b.push(k as u8);
                for _ in 0..k {
                    b.push(b'a' + r.below(3) as u8);
                }
            }
            4 => b.extend([0, 1, 0, 1]),
            5 => b.push(*r.pick(&[63u8, 62, 64, 128])),
            _ => b.extend([0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4]),
        }
    }
    b
}

/// Long chains of pointers and names at the size limit of a message.
fn heavy(r: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    let counts = [r.edge_u16(), r.edge_u16(), r.edge_u16(), r.edge_u16()];
    put_header(&mut b, &gen_hdr(r), counts);
    match r.below(4) {
        0 => {
            // A chain of pointers, each label pointing to the previous one, then many users of the end.
            let mut prev = b.len();
            b.push(0);
            for _ in 0..r.range(5, 20) {
                let at = b.len();
                let k = r.range(1, 12);
                b.push(k as u8);
                b.extend(vec![b'x'; k]);
                b.push(0xc0 | (prev >> 8) as u8);
                b.push(prev as u8);
                prev = at;
            }
            while b.len() < 65500 {
                b.push(0xc0 | (prev >> 8) as u8);
                b.push(prev as u8);
                b.extend([0, 1, 0, 1]);
                if r.one_in(3) {
                    b.extend([0, 0, 0, 1, 0, 4, 1, 2, 3, 4]);
                }
            }
        }
        1 => {
            // TXT with data lengths near the limits.
            b[4..12].copy_from_slice(&[0, 0, 0, 2, 0, 0, 0, 0]);
            b.extend([0, 0, 16, 0, 1, 0, 0, 0, 1]);
            let n = *r.pick(&[65535usize, 65534, 65280, 65536 - 300, 512]);
            b.extend((n as u16).to_be_bytes());
            let mut left = n;
            while left > 0 {
                let k = (left - 1).min(255);
                let k = if r.one_in(40) { r.below(k + 1) } else { k };
                b.push(k as u8);
                b.extend(vec![b'y'; k]);
                left -= k + 1;
            }
        }
        2 => {
            // WKS with an enormous map.
            b[4..12].copy_from_slice(&[0, 0, 0, 1, 0, 0, 0, 0]);
            b.extend([0, 0, 11, 0, 1, 0, 0, 0, 1]);
            let n = *r.pick(&[65515usize, 8192, 8193 + 5, 8197, 65510, 4, 5, 6]);
            b.extend((n as u16).to_be_bytes());
            let fill = r.u8();
            b.extend(vec![fill; n]);
        }
        _ => {
            // Unknown types of any length.
            while b.len() < 65000 {
                b.extend([0, 0, 41, 4, 208, 0, 0, 0, 0]);
                let n = r.below(3000);
                b.extend((n as u16).to_be_bytes());
                b.extend(vec![7; n]);
            }
        }
    }
    b.truncate(65535);
    b
}

pub fn gen_bytes(r: &mut Rng) -> (Vec<u8>, &'static str) {
    match r.below(100) {
        0..=9 => {
            let n = match r.below(10) {
                0 => r.range(0, 12),
                1 => r.range(500, 4000),
                _ => r.range(0, 120),
            };
            let mut b = r.bytes(n);
            if r.bool() && b.len() > 12 {
                // A plausible header.
                b[2] &= 0x87;
                b[3] &= 0x05;
                for i in [4, 6, 8, 10] {
                    b[i] = 0;
                    b[i + 1] &= 3;
                }
            }
            (b, "random")
        }
        10..=34 => (pointer_soup(r), "pointers"),
        35..=36 => (heavy(r), "heavy"),
        37..=84 => {
            let m = gen_msg(r, 4);
            let pct = *r.pick(&[0, 50, 90, 100]);
            let mut b = encode_compressed(&m, r, pct);
            let n = if r.one_in(5) { r.range(4, 40) } else { r.range(1, 3) };
            for _ in 0..n {
                mutate(r, &mut b);
            }
            b.truncate(65535);
            (b, "mutated")
        }
        _ => {
            let m = gen_msg(r, 5);
            let pct = *r.pick(&[0, 30, 80, 100]);
            let mut b = encode_compressed(&m, r, pct);
            if b.len() > 65535 {
                b.truncate(65535);
            }
            (b, "valid")
        }
    }
}

// ---------------------------------------------------------------- W01

pub fn w01(c: &mut Case) -> Res {
    let (b, kind) = gen_bytes(&mut c.rng);
    c.count(&format!("inputs {}", kind));
    c.max("largest input", b.len() as u64);
    let what = || format!("{} bytes {}", kind, hexs(&b));
    let m = guardv("decoder panics", what, || dns::Message::decode_from_bytes(&b))?;
    let h = guardv("header decoder panics", what, || dns::Header::decode_from_bytes(&b))?;
    let body = if b.len() > 12 { &b[12..] } else { &b[..] };
    let q = guardv("question decoder panics", what, || dns::Question::decode_from_bytes(body))?;
    let rec = guardv("record decoder panics", what, || dns::Record::decode_from_bytes(body))?;
    // A record alone, at any offset.
    let off = c.rng.below(b.len() + 1);
    let rec2 = guardv("record decoder panics", what, || dns::Record::decode_from_bytes(&b[off..]))?;
    let name = guardv("name decoder panics", what, || {
        let mut buf = BitsBuf::from_raw_bytes(&b);
        buf.set_read_pos(off * 8);
        dns::Name::from_bytes(&mut buf)
    })?;
    let mut sh = 0u64;
    for (k, ok) in [("message", m.is_ok()), ("header", h.is_ok()), ("question", q.is_ok()), ("record", rec.is_ok() || rec2.is_ok()), ("name", name.is_ok())] {
        c.count(&format!("{} {}", k, if ok { "accepted" } else { "refused" }));
        sh = sh << 1 | ok as u64;
    }
    // Errors can be shown.
    if let Err(e) = &m {
        let t = guardv("error cannot be shown", what, || format!("{:?}", e))?;
        sh = mix(sh, fnv(t.split('(').take(2).collect::<String>().as_bytes()));
    }
    c.distinct(mix(sh, fnv(&b)));
    c.sample(kind, || hexs(&b));
    Ok(())
}

// ---------------------------------------------------------------- W02

fn same(sig: &str, what: &str, want: &RMsg, got: &dns::Message, bytes: &[u8]) -> Res {
    let g = r_msg(got);
    ensure!(g == *want, sig, "{}: expected {:?}\n got {:?}\n bytes {}", what, want, g, hexs(bytes));
    ensure!(
        hdr_counts(&got.header) == counts(want),
        sig,
        "{}: header counts {:?} do not match the sections {:?}",
        what,
        hdr_counts(&got.header),
        counts(want)
    );
    Ok(())
}

/// Fills one section, or all, with hundreds or thousands of small records.
fn many(r: &mut Rng, m: &mut RMsg) {
    let all = r.one_in(4);
    let k = r.below(3);
    let owner = *r.pick(&[".", "a.", "x.yz."]);
    for s in 0..3 {
        if all || s == k {
            let n = if all { r.range(200, 1000) } else { *r.pick(&[255, 256, 257, 300, 511, 600, 1000, 2049, 3000]) };
            for i in 0..n as u32 {
                m.sec[s].push(RRec { name: labels(owner), ttl: i, data: RData::A([s as u8, 0, (i >> 8) as u8, i as u8]) });
            }
        }
    }
}

pub fn w02(c: &mut Case) -> Res {
    let r = &mut c.rng;
    if r.pct(25) {
        // Whatever was decoded can be encoded, and means the same.
        let (b, _) = gen_bytes(r);
        let m = match guard(|| dns::Message::decode_from_bytes(&b)) {
            Ok(Ok(m)) => m,
            _ => return Ok(()), // W01 and W03 judge this.
        };
        let what = || format!("decoded from {}", hexs(&b));
        let rm = r_msg(&m);
        let enc = guardv("encoder panics", what, || m.encode_to_bytes())?;
        let enc = match enc {
            Ok(v) => v,
            Err(e) => return bad("decoded message cannot be encoded", format!("{:?}: {}", e, what())),
        };
        ensure!(enc == encode(&rm), "wrong encoding", "{}\n got {}\n expected {}", what(), hexs(&enc), hexs(&encode(&rm)));
        let m2 = guardv("decoder panics", what, || dns::Message::decode_from_bytes(&enc))?;
        match m2 {
            Ok(m2) => same("decoded message does not survive encoding", "re-decoded", &rm, &m2, &enc)?,
            Err(e) => {
                // A message over 64 KiB is no input of the decoder's contract.
                if enc.len() <= 65535 {
                    return bad("decoded message does not survive encoding", format!("{:?} on {} {}", e, hexs(&enc), what()));
                }
            }
        }
        c.count("decoded, encoded and decoded again");
        c.distinct(fnv(&enc));
        return Ok(());
    }
    let mut m = gen_msg(r, 5);
    if r.one_in(400) {
        many(r, &mut m);
    }
    if r.one_in(4) {
        m.h.z = r.below(8) as u8;
    }
    let want = encode(&m);
    if want.len() > 65535 {
        return Ok(());
    }
    let cm = c_msg(&m);
    let what = || format!("{:?}", m);
    let enc = match guardv("encoder panics", what, || cm.encode_to_bytes())? {
        Ok(v) => v,
        Err(e) => return bad("encoder refuses", format!("{:?} on {}", e, what())),
    };
    if enc != want {
        let at = enc.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return bad("wrong encoding", format!("from octet {} on: got {} octets, {}, expected {}, {}; {}", at, enc.len(), hexs(&enc[at..]), want.len(), hexs(&want[at..]), what()));
    }
    let dec = match guardv("decoder panics", what, || dns::Message::decode_from_bytes(&enc))? {
        Ok(v) => v,
        Err(e) => return bad("round trip fails", format!("{:?} on {}", e, what())),
    };
    same("round trip differs", "decode(encode(m))", &m, &dec, &enc)?;
    for s in &m.sec {
        for rec in s {
            c.count(&format!("type {}", rec.data.rtype()));
        }
    }
    // Single records and questions through their own entry points.
    for (i, s) in [&m.sec[0], &m.sec[1], &m.sec[2]].iter().enumerate() {
        if let Some(rec) = s.first() {
            let mut w = vec![];
            put_rec(&mut w, rec);
            match guardv("record decoder panics", what, || dns::Record::decode_from_bytes(&w))? {
                Ok(v) => ensure!(r_rec(&v) == *rec, "round trip differs", "record {:?} became {:?} (section {})", rec, v, i),
                Err(e) => return bad("round trip fails", format!("{:?} on {:?}", e, rec)),
            }
        }
    }
    let n: usize = m.sec.iter().map(|s| s.len()).sum();
    c.max("largest message", want.len() as u64);
    if n > 200 {
        c.count("messages of hundreds of records in a section");
    }
    c.add("records", n as u64);
    if n > 0 || !m.q.is_empty() {
        c.distinct(fnv(&want));
    }
    c.sample("message", || format!("{:?}", m));
    Ok(())
}

// ---------------------------------------------------------------- W03

pub fn w03(c: &mut Case) -> Res {
    // The code points, every one of them once in 2048 cases.
    let first = (c.index as u32).wrapping_mul(32);
    for n in (0..32u32).map(|k| first.wrapping_add(k) as u16) {
        const TYPES: [u16; 20] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 252, 253, 254, 255];
        let t = dns::RecordType::from_num(n);
        ensure!(t.is_ok() == TYPES.contains(&n), "type code", "type {} gave {:?}", n, t);
        if let Ok(t) = t {
            ensure!(t.to_num() == n, "type code", "type {} is {:?} is {}", n, t, t.to_num());
            c.count("code points");
        }
        let t = dns::Class::from_num(n);
        ensure!(t.is_ok() == [1, 2, 3, 4, 255].contains(&n), "class code", "class {} gave {:?}", n, t);
        if let Ok(t) = t {
            ensure!(t.to_num() == n, "class code", "class {} is {:?} is {}", n, t, t.to_num());
        }
    }
    let r = &mut c.rng;
    let (b, kind) = match r.below(10) {
        _ if r.one_in(400) => {
            let mut m = RMsg { h: gen_hdr(r), ..Default::default() };
            if r.one_in(3) {
                let (s, n) = (r.below(3), r.range(3500, 5800));
                for i in 0..n as u32 {
                    m.sec[s].push(RRec { name: vec![], ttl: i, data: RData::Name(NS, vec![]) });
                }
            } else {
                many(r, &mut m);
            }
            (encode(&m), "hundreds of records in a section")
        }
        0 => {
            // Unknown types in every section, between known ones.
            let m = gen_msg(r, 3);
            (with_unknown(r, &m), "unknown types")
        }
        1 => {
            // One field off by one at a record's end.
            let mut m = gen_msg(r, 0);
            let mut pool = vec![];
            let k = r.below(3);
            m.sec[k].push(gen_rec(r, &mut pool));
            let mut b = encode(&m);
            let d = *r.pick(&[-1i32, 1, 2, 256]);
            let mut rd = vec![];
            put_rdata(&mut rd, &m.sec[k][0].data, &mut |o, n| put_name(o, n));
            let at = b.len() - rd.len() - 2;
            let l = (rd.len() as i32 + d) as u16;
            b[at..at + 2].copy_from_slice(&l.to_be_bytes());
            if d > 0 && r.bool() {
                b.extend(vec![0; d as usize]);
            }
            (b, "data length off")
        }
        2 => (chain(r), "pointer chains"),
        _ => gen_bytes(r),
    };
    let want = decode(&b);
    let got = match guard(|| dns::Message::decode_from_bytes(&b)) {
        Ok(g) => g,
        Err(p) => return bad("decoder panics", format!("{} on {}", p, hexs(&b))),
    };
    // The header alone.
    let hgot = guard(|| dns::Header::decode_from_bytes(&b));
    match (decode_header(&b), hgot) {
        (Ok((h, n)), Ok(Ok(g))) => {
            ensure!(r_hdr(&g) == h && hdr_counts(&g) == n, "header decoded wrongly", "bytes {} gave {:?}, expected {:?} {:?}", hexs(&b[..12]), g, h, n)
        }
        (Ok((h, _)), Ok(Err(e))) => {
            ensure!(h.z != 0, "good header refused", "{:?} on {}", e, hexs(&b[..12]))
        }
        (Err(e), Ok(Ok(g))) => return bad("bad header accepted", format!("{} on {} gave {:?}", e, hexs(&b[..b.len().min(12)]), g)),
        (_, Err(p)) => return bad("decoder panics", p),
        _ => {}
    }
    match (&want, got) {
        (Want::Accept(m), Ok(g)) | (Want::Either(_, m), Ok(g)) => {
            same("decoded wrongly", "decode", m, &g, &b)?;
            if kind == "hundreds of records in a section" {
                c.count("messages of hundreds of records in a section");
            }
            if kind == "pointer chains" {
                c.count("pointer chains followed");
            }
            c.count(if matches!(want, Want::Accept(_)) { "accepted" } else { "accepted (free choice)" });
            c.distinct(fnv(&b));
        }
        (Want::Accept(m), Err(e)) => return bad("well-formed message refused", format!("{:?} on {} = {:?}", e, hexs(&b), m)),
        (Want::Reject(why), Ok(g)) => return bad("malformed message accepted", format!("{}: {} gave {:?}", why, hexs(&b), r_msg(&g))),
        (Want::Reject(why), Err(_)) => {
            c.count(&format!("refused: {}", why));
            c.distinct(fnv(&b));
        }
        (Want::Either(why, _), Err(_)) => c.count(&format!("refused (free choice): {}", why)),
        (Want::Any(_), _) => {}
    }
    c.sample(kind, || hexs(&b));
    Ok(())
}

/// A well-formed message whose names end in chains of pointers, at near and far offsets.
fn chain(r: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    put_header(&mut b, &gen_hdr(r), [0, 0, 0, 0]);
    let mut an = 0u16;
    // Padding, so that offsets need 8, 12, 13 or 14 bits.
    let pad = *r.pick(&[0usize, 200, 240, 3000, 4060, 8100, 9000, 15000, 16000]);
    let mut left = pad;
    while left > 0 {
        let k = left.min(60000);
        let mut txts = vec![];
        let mut l = k;
        while l > 0 {
            let n = (l - 1).min(255);
            txts.push(vec![b'p'; n]);
            l -= n + 1;
        }
        put_rec(&mut b, &RRec { name: vec![], ttl: 0, data: RData::Txt(txts) });
        an += 1;
        left -= k;
    }
    // Each owner is one label more than the previous one, by pointer.
    let depth = r.range(1, 10);
    let mut prev: Option<usize> = None;
    for i in 0..=depth {
        let at = b.len();
        let k = if r.one_in(12) { r.range(20, 30) } else { r.range(1, 6) };
        b.push(k as u8);
        b.extend((0..k).map(|_| b'a' + r.below(26) as u8));
        match prev {
            None => {
                put_name(&mut b, &vec![b"zz".to_vec(), b"top".to_vec()]);
            }
            Some(p) => b.extend([0xc0 | (p >> 8) as u8, p as u8]),
        }
        if at < 0x4000 {
            prev = Some(at);
        }
        // Data may be a pointer too.
        let t = *r.pick(&[A, NS, MX]);
        b.extend(t.to_be_bytes());
        b.extend([0, 1, 0, 0, 0, i as u8]);
        let p = prev.unwrap_or(12);
        match t {
            A => b.extend([0, 4, 1, 2, 3, 4]),
            NS => b.extend([0, 2, 0xc0 | (p >> 8) as u8, p as u8]),
            _ => b.extend([0, 4, 0, 7, 0xc0 | (p >> 8) as u8, p as u8]),
        }
        an += 1;
    }
    b[6..8].copy_from_slice(&an.to_be_bytes());
    b
}

/// Encodes m with questions and records of unknown type mixed in (decodes to m).
pub fn with_unknown(r: &mut Rng, m: &RMsg) -> Vec<u8> {
    let mut out = vec![];
    let mut c = Compressor::new();
    put_header(&mut out, &m.h, [0; 4]);
    let mut n = [0u16; 4];
    let unk = [0u16, 17, 28, 33, 35, 41, 43, 46, 48, 65, 99, 249, 251, 256, 257, 32769, 65535];
    for i in 0..=m.q.len() {
        while r.pct(25) {
            c.put(&mut out, &gen_name(r), r, 60);
            out.extend(r.pick(&unk).to_be_bytes());
            out.extend(r.pick(&[1u16, 255, 3, 0, 4096]).to_be_bytes());
            n[0] += 1;
        }
        if i < m.q.len() {
            c.put(&mut out, &m.q[i].name, r, 60);
            out.extend(m.q[i].qtype.to_be_bytes());
            out.extend([0, 1]);
            n[0] += 1;
        }
    }
    for s in 0..3 {
        for i in 0..=m.sec[s].len() {
            while r.pct(30) {
                c.put(&mut out, &gen_name(r), r, 60);
                out.extend(r.pick(&unk).to_be_bytes());
                out.extend(r.pick(&[1u16, 255, 3, 0, 4096]).to_be_bytes());
                out.extend(r.edge_u32().to_be_bytes());
                let k = *r.pick(&[0usize, 1, 3, 16, 40, 300]);
                out.extend((k as u16).to_be_bytes());
                let d = r.bytes(k);
                out.extend(d);
                n[s + 1] += 1;
            }
            if i < m.sec[s].len() {
                put_rec_with(&mut out, &m.sec[s][i], &mut |o, nm| c.put(o, nm, r, 60));
                n[s + 1] += 1;
            }
        }
    }
    for i in 0..4 {
        out[4 + 2 * i..6 + 2 * i].copy_from_slice(&n[i].to_be_bytes());
    }
    out
}

// ---------------------------------------------------------------- W04

fn hash_of(n: &dns::Name) -> u64 {
    let mut h = DefaultHasher::new();
    n.hash(&mut h);
    h.finish()
}

/// Texts around the border of legality.
fn gen_text(r: &mut Rng) -> String {
    let mut n = gen_name(r);
    let mut s = text(&n);
    match r.below(16) {
        0 => {
            s.pop();
        }
        1 => s.push('.'),
        2 => s.insert(0, '.'),
        3 => s.insert(0, '-'),
        4 => {
            let i = r.below(s.len() + 1);
            s.insert(i, *r.pick(&['.', '-', '_', ' ', '\\', '*', '@', '\0', '\t', '\u{7f}', '/', ':', '`', '[', '{']));
        }
        5 => {
            let i = r.below(s.len() + 1);
            s.insert(i, *r.pick(&['é', 'ß', '٣', 'а', '\u{212a}', '\u{ff0e}', '\u{3002}']));
        }
        6 => {
            // Label length border.
            let k = *r.pick(&[62usize, 63, 64, 65, 127, 255]);
            s = format!("{}.{}", "q".repeat(k), if s == "." { "".into() } else { s });
        }
        7 => {
            // Name length border.
            let want = *r.pick(&[252usize, 253, 254, 255, 256, 257, 300]);
            let mut t = String::new();
            while t.len() < want {
                let k = (want - t.len() - 1).min(*r.pick(&[1usize, 10, 63]));
                if k == 0 {
                    break;
                }
                t.push_str(&"w".repeat(k));
                t.push('.');
            }
            s = t;
        }
        8 => s = String::new(),
        9 => s = r.pick(&["..", "...", "a..b.", "-.", "a-.", "-a.", "a.-", ".a", "a", "com", "@", "*.com."]).to_string(),
        10 => {
            if !n.is_empty() {
                let i = r.below(n.len());
                let j = r.below(n[i].len() + 1);
                n[i].insert(j, *r.pick(&[b'-', b'_', b'.', b'9']));
                s = text(&n);
            }
        }
        _ => {}
    }
    s
}

/// A name as bytes, possibly illegal, at the start of the buffer.
fn gen_raw_name(r: &mut Rng) -> Vec<u8> {
    let mut n = gen_name(r);
    match r.below(8) {
        0 if !n.is_empty() => {
            let i = r.below(n.len());
            let k = n[i].len();
            let j = r.below(k);
            n[i][j] = *r.pick(&[b'.', b'-', b'_', 0, 255, 0xc3, b' ', b'*', b'\\']);
        }
        1 => n.push(vec![b'z'; 63]),
        2 => {
            for _ in 0..r.range(1, 5) {
                n.insert(0, vec![b'y'; r.range(40, 63)]);
            }
        }
        3 if !n.is_empty() => {
            let i = r.below(n.len());
            n[i] = vec![b'-'; r.range(1, 3)];
        }
        _ => {}
    }
    let mut b = vec![];
    put_name(&mut b, &n);
    b
}

fn related(r: &mut Rng, n: &RName) -> RName {
    let mut m = n.clone();
    match r.below(9) {
        0 => {}
        1 => {
            if !m.is_empty() {
                m.remove(0);
            }
        }
        2 => m.insert(0, gen_label(r)),
        3 => {
            // Same characters, other labels: merge two labels or extend one.
            if !m.is_empty() {
                let mut l = m[0].clone();
                l.insert(0, b'x');
                if label_ok(&l) {
                    m[0] = l;
                }
            }
        }
        4 => {
            for l in &mut m {
                *l = if r.bool() { l.to_ascii_uppercase() } else { l.to_ascii_lowercase() };
            }
        }
        5 => {
            if !m.is_empty() {
                m.pop();
            }
        }
        6 => {
            if m.len() > 1 && m[0].len() > 1 {
                let k = m[0].len() / 2;
                let l = m[0].split_off(k);
                m.insert(1, l);
            }
        }
        7 => {
            // '@' and '`' differ by 0x20 as letters do, but are no letters: digits near letters instead.
            if !m.is_empty() {
                let i = r.below(m.len());
                let k = m[i].len();
                let j = r.below(k);
                m[i][j] = *r.pick(&[b'0', b'9', b'a', b'Z', b'P', b'p']);
            }
        }
        _ => m = gen_name(r),
    }
    while m.iter().any(|l| !label_ok(l)) || wire_len(&m) > 255 {
        m = gen_name(r);
    }
    m
}

pub fn w04(c: &mut Case) -> Res {
    let r = &mut c.rng;
    match r.below(4) {
        0 => {
            // Legality of text.
            let s = gen_text(r);
            let got = guardv("panic", || format!("{:?}", s), || dns::Name::from_string(&s))?;
            let want = text_ok(&s);
            ensure!(got.is_ok() == want, if want { "legal name refused" } else { "illegal name accepted" }, "text {:?} gave {:?}", s, got);
            if let Ok(n) = got {
                ensure!(n.as_ref() == s, "text changed", "{:?} became {:?}", s, n.as_ref());
                ensure!(format!("{}", n) == s, "text changed", "{:?} is displayed as {}", s, n);
                let mut w = vec![];
                put_name(&mut w, &labels(&s));
                let b = guardv("panic", || format!("to_bytes of {:?}", s), || n.to_bytes())?;
                ensure!(b == w, "wrong wire form", "{:?} encoded as {} instead of {}", s, hex(&b), hex(&w));
                c.count("legal texts");
            } else {
                c.count("illegal texts");
            }
            c.distinct(fnv(s.as_bytes()));
            c.sample("text", || format!("{:?} legal={}", s, want));
        }
        1 => {
            // Legality on the wire, and faithful conversion.
            let b = gen_raw_name(r);
            let mut n: RName = vec![];
            let mut i = 0;
            while b[i] != 0 {
                let l = b[i] as usize;
                n.push(b[i + 1..i + 1 + l].to_vec());
                i += l + 1;
            }
            let want = name_ok(&n);
            // At some offset within a buffer, with something behind it.
            let off = r.below(5);
            let mut all = vec![3u8; off];
            all.extend(&b);
            let tail = r.below(3);
            all.extend(vec![9u8; tail]);
            let (got, pos) = guardv("panic", || hex(&all), || {
                let mut buf = BitsBuf::from_raw_bytes(&all);
                buf.set_read_pos(off * 8);
                let g = dns::Name::from_bytes(&mut buf);
                (g, buf.read_pos())
            })?;
            ensure!(got.is_ok() == want, if want { "legal name refused" } else { "illegal name accepted" }, "wire {} gave {:?}", hex(&b), got);
            if let Ok(g) = got {
                ensure!(g.as_ref() == text(&n), "text changed", "wire {} became {:?}", hex(&b), g.as_ref());
                ensure!(pos == (off + b.len()) * 8, "wrong position after a name", "{} instead of {}", pos, (off + b.len()) * 8);
                let back = guardv("panic", || text(&n), || g.to_bytes())?;
                ensure!(back == b, "wrong wire form", "{} re-encoded as {}", hex(&b), hex(&back));
                let again = guardv("panic", || text(&n), || dns::Name::from_string(g.as_ref()))?;
                ensure!(matches!(&again, Ok(x) if *x == g), "wire name illegal as text", "{:?}", g);
                c.count("legal wire names");
            } else {
                c.count("illegal wire names");
            }
            c.distinct(fnv(&b));
        }
        2 => {
            // Relations on pairs and triples.
            let n1 = gen_name(r);
            let n2 = related(r, &n1);
            let n3 = related(r, &n2);
            let names = [&n1, &n2, &n3];
            let cs: Vec<dns::Name> = names.iter().map(|n| c_name(n)).collect();
            for i in 0..3 {
                for j in 0..3 {
                    let eq = name_eq(names[i], names[j]);
                    ensure!((cs[i] == cs[j]) == eq, "wrong equality", "{} == {} is {}", cs[i], cs[j], !eq);
                    if eq {
                        ensure!(hash_of(&cs[i]) == hash_of(&cs[j]), "equal names hash differently", "{} {}", cs[i], cs[j]);
                    }
                    let inz = in_zone(names[i], names[j]);
                    let got = guardv("panic", || format!("{} in {}", cs[i], cs[j]), || cs[i].is_in_zone(&cs[j]))?;
                    ensure!(got == inz, "wrong containment", "{} in zone {} is {}", cs[i], cs[j], got);
                    ensure!(cs[i].is_in_zone_root(&cs[j]) == eq, "wrong containment", "{} top node of {} is {}", cs[i], cs[j], !eq);
                    let k = 3 - (i + j) % 3;
                    let k = k % 3;
                    let want = inz && !in_zone(names[i], names[k]);
                    let got = cs[i].is_only_in_auth_zone(&cs[j], &[cs[k].clone()]);
                    ensure!(got == want, "wrong containment", "{} only in {} (sub zone {}) is {}", cs[i], cs[j], cs[k], got);
                    if inz {
                        c.count("pairs contained");
                    }
                    if eq && i != j {
                        c.count("pairs equal");
                    }
                }
                ensure!(cs[i].is_in_zone(&c_name(&vec![])), "wrong containment", "{} not in the root", cs[i]);
            }
            c.count("triples");
            c.distinct(fnv(format!("{}{}{}", cs[0], cs[1], cs[2]).as_bytes()));
            c.sample("triple", || format!("{} {} {}", cs[0], cs[1], cs[2]));
        }
        _ => {
            // As keys of a map: one entry per name up to case.
            let mut model: HashMap<RName, usize> = HashMap::new();
            let mut set: HashSet<RName> = HashSet::new();
            let mut map: HashMap<dns::Name, usize> = HashMap::new();
            let mut n = gen_name(r);
            for i in 0..r.range(4, 24) {
                n = related(r, &n);
                model.insert(lower(&n), i);
                set.insert(lower(&n));
                map.insert(c_name(&n), i);
                let probe = related(r, &n);
                let want = model.get(&lower(&probe));
                let got = map.get(&c_name(&probe));
                ensure!(want == got, "names as keys", "lookup of {} gave {:?} instead of {:?}", text(&probe), got, want);
            }
            ensure!(map.len() == set.len(), "names as keys", "{} entries instead of {}", map.len(), set.len());
            c.count("maps of names");
            c.distinct(fnv(format!("{:?}", set.len()).as_bytes()));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- W05

pub fn w05(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut pool = vec![];
    let mut m = RMsg { h: gen_hdr(r), ..Default::default() };
    let nq = match r.below(6) {
        0 => 0,
        1 => r.range(2, 40),
        _ => 1,
    };
    for _ in 0..nq {
        m.q.push(RQ { name: gen_rel_name(r, &mut pool), qtype: *r.pick(&TYPES) });
    }
    // Fill up towards a chosen total, so that the border falls anywhere.
    let target = match r.below(4) {
        0 => r.range(12, 505),
        1 => r.range(505, 520),
        2 => r.range(520, 800),
        _ => r.range(800, 3000),
    };
    let mut s = r.below(3);
    loop {
        let len = encode(&m).len();
        if len >= target {
            break;
        }
        if r.one_in(4) {
            s = r.below(3);
        }
        let gap = target - len;
        if gap <= 60 && gap >= 13 && r.bool() {
            // Exactly to the target, with a TXT record owned by the root.
            let k = gap - 12;
            m.sec[s].push(RRec { name: vec![], ttl: 1, data: RData::Txt(vec![vec![b't'; k]]) });
            continue;
        }
        let rec = gen_rec(r, &mut pool);
        m.sec[s].push(rec);
    }
    // Reference: cut at the first item that does not fit.
    let mut items: Vec<(usize, Vec<u8>)> = vec![];
    for q in &m.q {
        let mut b = vec![];
        put_q(&mut b, q);
        items.push((0, b));
    }
    for s in 0..3 {
        for rec in &m.sec[s] {
            let mut b = vec![];
            put_rec(&mut b, rec);
            items.push((s + 1, b));
        }
    }
    let mut body = vec![];
    let mut n = [0u16; 4];
    let mut cut = None;
    for (i, (s, b)) in items.iter().enumerate() {
        if 12 + body.len() + b.len() > 512 {
            cut = Some((i, *s));
            break;
        }
        body.extend(b);
        n[*s] += 1;
    }
    let mut h = m.h.clone();
    h.tc |= cut.is_some();
    let mut want = vec![];
    put_header(&mut want, &h, n);
    want.extend(&body);

    let cm = c_msg(&m);
    let what = || format!("message of {} bytes: {:?}", encode(&m).len(), m);
    let got = match guardv("encoder panics", what, || cm.encode_to_bytes_trunc())? {
        Ok(v) => v,
        Err(e) => return bad("encoder refuses", format!("{:?} {}", e, what())),
    };
    ensure!(got.len() <= 512, "over 512 bytes", "{} bytes for {}", got.len(), what());
    ensure!(got == want, "wrong truncation", "got {}\n expected {}\n {}", hexs(&got), hexs(&want), what());
    // The cut message decodes to exactly the prefix.
    match guardv("decoder panics", what, || dns::Message::decode_from_bytes(&got))? {
        Err(e) => return bad("cut message does not decode", format!("{:?} {}", e, what())),
        Ok(d) => {
            let mut p = m.clone();
            p.h = h;
            p.q.truncate(n[0] as usize);
            for s in 0..3 {
                p.sec[s].truncate(n[s + 1] as usize);
            }
            same("wrong truncation", "decoded prefix", &p, &d, &got)?;
        }
    }
    match cut {
        None => c.count("not cut"),
        Some((_, s)) => c.count(["cut in questions", "cut in answers", "cut in authorities", "cut in additionals"][s]),
    }
    if got.len() == 512 {
        c.count("exactly 512 bytes");
    }
    c.distinct(fnv(&want));
    c.sample(if cut.is_some() { "cut" } else { "whole" }, || format!("{} bytes of {}: {}", got.len(), encode(&m).len(), hexs(&got)));
    Ok(())
}

// ---------------------------------------------------------------- W06

#[derive(Default)]
struct Model {
    bits: Vec<bool>,
    r: usize,
    w: usize,
}

impl Model {
    fn read(&mut self, n: usize) -> Option<u64> {
        if self.r + n > self.bits.len() {
            return None;
        }
        let mut v = 0u64;
        for i in 0..n {
            v = v << 1 | self.bits[self.r + i] as u64;
        }
        self.r += n;
        Some(v)
    }
    fn write(&mut self, v: u64, n: usize) {
        for i in (0..n).rev() {
            let bit = v >> i & 1 == 1;
            if self.w < self.bits.len() {
                self.bits[self.w] = bit;
            } else {
                self.bits.push(bit);
            }
            self.w += 1;
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![0u8; (self.bits.len() + 7) / 8];
        for (i, b) in self.bits.iter().enumerate() {
            if *b {
                o[i / 8] |= 0x80 >> (i % 8);
            }
        }
        o
    }
}

pub fn w06(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut m = Model::default();
    let mut b;
    let mut log = vec![];
    if r.bool() {
        let n = r.below(12);
        let init = r.bytes(n);
        b = BitsBuf::from_raw_bytes(&init);
        for x in &init {
            m.write(*x as u64, 8);
        }
        log.push(format!("from_raw_bytes({})", hex(&init)));
    } else {
        b = if r.bool() { BitsBuf::new() } else { BitsBuf::default() };
    }
    let n_ops = if r.one_in(10) { 120 } else { r.range(3, 40) };
    let mut kinds = 0u64;
    for _ in 0..n_ops {
        let op = r.below(13);
        kinds |= 1 << op;
        let len = m.bits.len();
        let mut got: Option<Vec<u8>> = None;
        let mut want: Option<Vec<u8>> = None;
        let desc;
        let res = match op {
            0 | 1 => {
                let (v, n) = (r.u8(), r.range(1, 8));
                desc = format!("write_bits({}, {})", v, n);
                m.write(v as u64 & ((1 << n) - 1), n);
                guard(|| b.write_bits(v, n as u8))
            }
            2 => {
                let v = r.u8();
                desc = format!("write_u8({})", v);
                m.write(v as u64, 8);
                guard(|| b.write_u8(v))
            }
            3 => {
                let v = r.edge_u16();
                desc = format!("write_u16({})", v);
                m.write(v as u64, 16);
                guard(|| b.write_u16(v))
            }
            4 => {
                let v = r.edge_u32();
                desc = format!("write_u32({})", v);
                m.write(v as u64, 32);
                guard(|| b.write_u32(v))
            }
            5 => {
                let k = r.below(9);
                let v = r.bytes(k);
                desc = format!("write_bytes({})", hex(&v));
                for x in &v {
                    m.write(*x as u64, 8);
                }
                guard(|| b.write_bytes(&v))
            }
            6 => {
                let n = r.range(0, 8);
                desc = format!("read_bits({})", n);
                want = m.read(n).map(|v| vec![v as u8]);
                guard(|| got = b.read_bits(n as u8).map(|v| vec![v]))
            }
            7 => {
                let k = r.below(3);
                desc = format!("read_u{}", 8 << k);
                match k {
                    0 => {
                        want = m.read(8).map(|v| vec![v as u8]);
                        guard(|| got = b.read_u8().map(|v| vec![v]))
                    }
                    1 => {
                        want = m.read(16).map(|v| (v as u16).to_be_bytes().to_vec());
                        guard(|| got = b.read_u16().map(|v| v.to_be_bytes().to_vec()))
                    }
                    _ => {
                        want = m.read(32).map(|v| (v as u32).to_be_bytes().to_vec());
                        guard(|| got = b.read_u32().map(|v| v.to_be_bytes().to_vec()))
                    }
                }
            }
            8 => {
                let n = match r.below(12) {
                    0 => 0,
                    1 => (len.saturating_sub(m.r)) / 8 + 1,
                    2 => (len.saturating_sub(m.r)) / 8,
                    3 => *r.pick(&[usize::MAX, usize::MAX / 8, usize::MAX / 8 + 1, 1 << 61, 65536]),
                    _ => r.below(6),
                };
                desc = format!("read_bytes_vec({})", n);
                want = if n > (len - m.r) / 8 { None } else { Some((0..n).map(|_| m.read(8).unwrap() as u8).collect()) };
                guard(|| got = b.read_bytes_vec(n))
            }
            9 => {
                let k = *r.pick(&[0usize, 1, 4, 7]);
                desc = format!("read_bytes::<{}>", k);
                want = if m.r + k * 8 > len { None } else { Some((0..k).map(|_| m.read(8).unwrap() as u8).collect()) };
                guard(|| {
                    got = match k {
                        0 => b.read_bytes::<0>().map(|v| v.to_vec()),
                        1 => b.read_bytes::<1>().map(|v| v.to_vec()),
                        4 => b.read_bytes::<4>().map(|v| v.to_vec()),
                        _ => b.read_bytes::<7>().map(|v| v.to_vec()),
                    }
                })
            }
            10 => {
                let p = if r.one_in(4) { len } else { r.below(len + 1) };
                desc = format!("set_read_pos({})", p);
                m.r = p;
                guard(|| b.set_read_pos(p))
            }
            11 => {
                let p = if r.one_in(4) { len } else { r.below(len + 1) };
                desc = format!("set_write_pos({})", p);
                m.w = p;
                guard(|| b.set_write_pos(p))
            }
            _ => {
                let n = match r.below(6) {
                    0 => len + r.below(20),
                    1 => len,
                    2 => 0,
                    _ => r.below(len + 1),
                };
                desc = format!("truncate({})", n);
                if n < len {
                    m.bits.truncate(n);
                    m.r = m.r.min(n);
                    m.w = m.w.min(n);
                }
                guard(|| b.truncate(n))
            }
        };
        log.push(desc);
        if let Err(p) = res {
            return bad("panic", format!("{} after {:?}", p, log));
        }
        ensure!(got == want, "wrong read", "{:?} instead of {:?} after {:?}", got, want, log);
        ensure!(
            b.len() == m.bits.len() && b.read_pos() == m.r && b.write_pos() == m.w,
            "wrong length or position",
            "len {} r {} w {} instead of {} {} {} after {:?}",
            b.len(),
            b.read_pos(),
            b.write_pos(),
            m.bits.len(),
            m.r,
            m.w,
            log
        );
        // Every so often the whole content, read through a saved position.
        if r.one_in(3) {
            let (saved, mut bits) = (b.read_pos(), vec![]);
            b.set_read_pos(0);
            while let Some(x) = b.read_bits(1) {
                bits.push(x == 1);
            }
            b.set_read_pos(saved);
            ensure!(bits == m.bits, "wrong content", "bits {:?} instead of {:?} after {:?}", bits, m.bits, log);
            c.stats.counts.entry("contents compared".into()).and_modify(|v| *v += 1).or_insert(1);
        }
    }
    let got = b.into_vec();
    ensure!(got == m.bytes(), "wrong content", "{} instead of {} after {:?}", hex(&got), hex(&m.bytes()), log);
    c.add("operations", n_ops as u64);
    c.distinct(mix(fnv(&got), mix(kinds, n_ops as u64)));
    c.sample("history", || format!("{:?}", log));
    Ok(())
}
