//! Properties of the codecs: C01, C02, C03, C04, C05, C18, C19.

use crate::ensure;
use crate::model::*;
use crate::util::*;
use ariadne_dns::shared::buffer::BitsBuf;
use ariadne_dns::shared::dns;

pub type Emit<'a> = &'a mut dyn FnMut(String) -> bool;

// ------------------------------------------------------------------ messages as inputs

/// Messages of all sorts: valid, compressed, mutated, random, with long chains of pointers.
pub fn gen_bytes(r: &mut Rng) -> Vec<u8> {
    match r.below(12) {
        0 => {
            let n = r.below(40);
            (0..n).map(|_| r.next() as u8).collect()
        }
        1 | 2 => gen_pointers(r),
        3 => gen_unknown(r),
        4 => {
            let m = gen_msg(r);
            enc_msg(&m)
        }
        5 | 6 => {
            let m = gen_msg(r);
            enc_msg_compressed(&m, r)
        }
        _ => {
            let m = gen_msg(r);
            let mut b = if r.chance(1, 2) { enc_msg(&m) } else { enc_msg_compressed(&m, r) };
            mutate(&mut b, r);
            b
        }
    }
}

/// A question whose name follows a chain of pointers, and maybe loops or points out of the message.
fn gen_pointers(r: &mut Rng) -> Vec<u8> {
    let mut h = gen_head(r);
    h.counts = [1, 0, 0, 0];
    let mut b = enc_head(&h);
    let hops = *r.pick(&[1usize, 2, 3, 14, 15, 16, 17, 18]);
    // the last name first
    let mut at = vec![];
    let lead = r.below(3);
    let fwd = r.chance(1, 2);
    let nlab = r.below(3);
    if fwd {
        // question name at 12, then its type and class, then the rest of the chain
        let q = b.len();
        b.extend([0u8; 2]);
        b.extend(1u16.to_be_bytes());
        b.extend(1u16.to_be_bytes());
        let mut prev = q;
        for i in 0..hops {
            let here = b.len();
            b[prev] = 0xc0 | (here >> 8) as u8;
            b[prev + 1] = here as u8;
            if i + 1 < hops {
                for _ in 0..lead {
                    b.extend([1, b'p']);
                }
                prev = b.len();
                b.extend([0, 0]);
            } else {
                for _ in 0..nlab {
                    b.extend([2, b'x', b'y']);
                }
                if r.chance(5, 6) {
                    b.push(0);
                }
            }
        }
    } else {
        // the chain is in the tail of the header counts: pointers to themselves or to the header
        for _ in 0..lead {
            b.extend([1, b'p']);
            at.push(b.len());
        }
        let t = *r.pick(&[0usize, 4, 10, 12, 13, 14, b.len(), b.len() + 1, b.len() + 2, b.len() + 5, b.len() + 6, b.len() + 7, 511, 512, 16383]);
        b.push(0xc0 | (t >> 8) as u8);
        b.push(t as u8);
        b.extend(1u16.to_be_bytes());
        b.extend(1u16.to_be_bytes());
        if r.chance(1, 3) {
            let n = b.len();
            b.truncate(n - r.below(5));
        }
    }
    b
}

/// Entries of unknown or unsupported types and classes among the others.
fn gen_unknown(r: &mut Rng) -> Vec<u8> {
    let m = gen_msg(r);
    let mut b = vec![];
    let mut counts = m.head.counts;
    let types = [0u16, 17, 28, 99, 251, 256, 65535, 3, 4, 10, 255, 252, 1];
    let classes = [1u16, 1, 1, 0, 2, 3, 4, 5, 255, 256, 254];
    let mut body = vec![];
    for q in &m.qs {
        if r.chance(1, 3) {
            body.extend(wire_name(&q.node));
            body.extend(r.pick(&types).to_be_bytes());
            body.extend(r.pick(&classes).to_be_bytes());
            counts[0] += 1;
        }
        body.extend(enc_quest(q));
    }
    for s in 0..3 {
        for rec in &m.secs[s] {
            if r.chance(1, 3) {
                body.extend(wire_name(&rec.node));
                body.extend(r.pick(&types).to_be_bytes());
                body.extend(r.pick(&classes).to_be_bytes());
                body.extend(gen_u32(r).to_be_bytes());
                let n = r.below(6);
                body.extend((n as u16).to_be_bytes());
                for _ in 0..n {
                    body.push(r.next() as u8);
                }
                counts[s + 1] += 1;
            }
            body.extend(enc_rec(rec));
        }
    }
    let mut h = m.head.clone();
    h.counts = counts;
    b.extend(enc_head(&h));
    b.extend(body);
    if r.chance(1, 4) {
        mutate(&mut b, r);
    }
    b
}

/// All the lengths of the data of a record against all the lengths stated for it.
fn data_len_cases(emit: Emit) -> bool {
    let mut r = Rng::new(77);
    for t in SUPPORTED {
        for round in 0..4 {
            let d = if t == 16 && round == 0 {
                Data::TXT(vec!["ab".into(), "".into(), "c".into()])
            } else {
                gen_data(&mut r, t)
            };
            let e = enc_data(&d);
            if e.len() > 600 {
                continue;
            }
            for delta in -3i32..=3 {
                for cut in 0..3usize {
                    let n = e.len() as i32 + delta;
                    if n < 0 {
                        continue;
                    }
                    let mut h = gen_head(&mut r);
                    h.counts = [0, 1, 0, 0];
                    let mut b = enc_head(&h);
                    b.extend(wire_name("a.b."));
                    b.extend(t.to_be_bytes());
                    b.extend(1u16.to_be_bytes());
                    b.extend(5u32.to_be_bytes());
                    b.extend((n as u16).to_be_bytes());
                    b.extend(&e[..e.len().saturating_sub(cut)]);
                    if cut == 0 && delta > 0 {
                        b.extend(vec![0; delta as usize]);
                    }
                    if !emit(hex(&b)) {
                        return false;
                    }
                }
            }
        }
    }
    true
}

/// Names as long as the limits allow, and a little more.
fn long_names(emit: Emit) -> bool {
    for total in 245..=262usize {
        for first in [1usize, 2, 31, 62, 63, 64] {
            let mut b = vec![0u8; 12];
            b[5] = 1;
            let mut left = total;
            let mut first = Some(first);
            while left > 0 {
                let k = first.take().unwrap_or(63).min(left - 1);
                if k == 0 {
                    break;
                }
                b.push(k as u8);
                b.extend(vec![b'a'; k]);
                left -= k + 1;
            }
            b.push(0);
            b.extend([0, 1, 0, 1]);
            if !emit(hex(&b)) {
                return false;
            }
        }
    }
    // each byte as the only one, the first, the last and a middle one of a label
    for c in 0..=255u8 {
        for l in [vec![c], vec![c, b'a'], vec![b'a', c], vec![b'a', c, b'b'], vec![b'a', c, c, b'1']] {
            let mut b = vec![0u8; 12];
            b[5] = 1;
            b.push(1);
            b.push(b'n');
            b.push(l.len() as u8);
            b.extend(l);
            b.extend([0, 0, 1, 0, 1]);
            if !emit(hex(&b)) {
                return false;
            }
        }
    }
    // each length byte
    for n in 0..=255usize {
        let mut b = vec![0u8; 12];
        b[5] = 1;
        b.push(n as u8);
        b.extend(vec![b'a'; n]);
        b.extend([0, 0, 1, 0, 1]);
        if !emit(hex(&b)) {
            return false;
        }
    }
    true
}

fn flag_cases(emit: Emit) -> bool {
    for f in 0..=0xffffu32 {
        let b = [0xab, 0xcd, (f >> 8) as u8, f as u8, 0, 0, 0, 0, 0, 0, 0, 0];
        if !emit(hex(&b)) {
            return false;
        }
    }
    true
}

/// Wire bytes whose lengths pass 16 bits.
fn big_messages(emit: Emit) -> bool {
    for fill in [0usize, 60000, 65000, 65530, 65535] {
        for t in [16u16, 11, 99, 13] {
            let mut b = vec![0u8; 12];
            b[7] = 1;
            b.push(0);
            b.extend(t.to_be_bytes());
            b.extend([0, 1, 0, 0, 0, 1]);
            b.extend((fill as u16).to_be_bytes());
            let mut d = vec![];
            while d.len() < fill {
                if t == 16 {
                    let k = (fill - d.len() - 1).min(255);
                    d.push(k as u8);
                    d.extend(vec![b'a'; k]);
                } else {
                    d.push(if t == 11 { 1 } else { 0 });
                }
            }
            b.extend(d);
            if !emit(hex(&b)) {
                return false;
            }
        }
    }
    true
}

fn part_emit<'a>(part: usize, parts: usize, emit: Emit<'a>) -> impl FnMut(String) -> bool + 'a {
    let mut k = 0usize;
    move |c| {
        k += 1;
        if k % parts == part {
            emit(c)
        } else {
            true
        }
    }
}

pub fn gen_c01(r: &mut Rng, part: usize, parts: usize, emit: Emit) {
    {
        let mut e = part_emit(part, parts, emit);
        if !(data_len_cases(&mut e) && long_names(&mut e) && big_messages(&mut e)) {
            return;
        }
        // all the prefixes of a message with each kind of record
        let mut q = Rng::new(5);
        for t in SUPPORTED {
            let mut m = gen_msg(&mut q);
            m.secs = [vec![Rec { node: "a.b.".into(), ttl: 1, data: gen_data(&mut q, t) }], vec![], vec![]];
            m.head.counts = [m.qs.len() as u16, 1, 0, 0];
            let b = enc_msg_compressed(&m, &mut q);
            for n in 0..b.len().min(700) {
                if !e(hex(&b[..n])) {
                    return;
                }
            }
        }
    }
    while emit(hex(&gen_bytes(r))) {}
}

pub fn gen_c02(r: &mut Rng, part: usize, parts: usize, emit: Emit) {
    {
        let mut e = part_emit(part, parts, emit);
        if !(data_len_cases(&mut e) && long_names(&mut e) && big_messages(&mut e) && flag_cases(&mut e)) {
            return;
        }
    }
    while emit(hex(&gen_bytes(r))) {}
}

/// No panic, and a result, whatever the bytes are.
pub fn check_c01(case: &str) -> Res {
    let b = unhex(case);
    let ok = dns::Message::decode_from_bytes(&b).is_ok();
    let _ = dns::Header::decode_from_bytes(&b);
    let _ = dns::Question::decode_from_bytes(&b);
    let _ = dns::Record::decode_from_bytes(&b);
    if b.len() > 12 {
        let _ = dns::Question::decode_from_bytes(&b[12..]);
        let _ = dns::Record::decode_from_bytes(&b[12..]);
    }
    let mut buf = BitsBuf::from_raw_bytes(&b);
    let _ = dns::Name::from_bytes(&mut buf);
    if b.len() >= 12 {
        let mut buf = BitsBuf::from_raw_bytes(&b);
        buf.set_read_pos(96);
        let _ = dns::Name::from_bytes(&mut buf);
        let mut buf = BitsBuf::from_raw_bytes(&b);
        buf.set_read_pos(96);
        let _ = dns::decode_character_string(&mut buf);
    }
    Ok(ok || b.len() >= 12)
}

pub fn check_c02(case: &str) -> Res {
    let b = unhex(case);
    let want = dec_msg(&b);
    match (dns::Message::decode_from_bytes(&b), &want) {
        (Ok(m), Ok(w)) => {
            let got = model_msg(&m)?;
            ensure!(&got == w, "decoded {:?}, the bytes say {:?}", got, w);
        }
        (Ok(m), Err(e)) => return Err(format!("accepted as {:?}, but the bytes are {:?}", m, e)),
        (Err(e), Ok(w)) => return Err(format!("refused with {:?}, but the bytes say {:?}", e, w)),
        (Err(e), Err(w)) => {
            let got = bad_of(&e.inner_err());
            ensure!(got == *w, "refused as {:?} ({:?}), expected {:?}", got, e, w);
        }
    }
    match (dns::Header::decode_from_bytes(&b), dec_head(&b)) {
        (Ok(h), Ok(w)) => ensure!(model_head(&h) == w, "header {:?}, expected {:?}", h, w),
        (Err(_), Err(_)) => {}
        (g, w) => return Err(format!("header {:?}, expected {:?}", g, w)),
    }
    if b.len() > 12 {
        let tail = &b[12..];
        match (dns::Record::decode_from_bytes(tail), dec_one_rec(tail)) {
            (Ok(g), Ok(Some(w))) => {
                ensure!(model_rec(&g)? == w, "record {:?}, expected {:?}", g, w);
            }
            (Err(dns::ParsingErr::UnknownType(_)), Ok(None)) => {}
            (Err(e), Err(w)) => ensure!(
                bad_of(&e) == w && !matches!(e, dns::ParsingErr::UnknownType(_)),
                "record refused with {:?}, expected {:?}", e, w
            ),
            (g, w) => return Err(format!("record {:?}, expected {:?}", g, w)),
        }
        match (dns::Question::decode_from_bytes(tail), dec_one_quest(tail)) {
            (Ok(g), Ok(Some(w))) => {
                ensure!(model_quest(&g)? == w, "question {:?}, expected {:?}", g, w);
            }
            (Err(dns::ParsingErr::UnknownType(_)), Ok(None)) => {}
            (Err(e), Err(w)) => ensure!(
                bad_of(&e) == w && !matches!(e, dns::ParsingErr::UnknownType(_)),
                "question refused with {:?}, expected {:?}", e, w
            ),
            (g, w) => return Err(format!("question {:?}, expected {:?}", g, w)),
        }
    }
    Ok(want.is_ok())
}

// ------------------------------------------------------------------ C03, C04

/// A message is written in a case as its encoding by the oracle.
fn msg_case(m: &Msg) -> Option<String> {
    let b = enc_msg(m);
    if b.len() > 200_000 {
        return None;
    }
    Some(hex(&b))
}

pub fn gen_c03(r: &mut Rng, part: usize, parts: usize, emit: Emit) {
    {
        let mut e = part_emit(part, parts, emit);
        for f in 0..=0xffffu32 {
            if !e(format!("h {:04x}", f)) {
                return;
            }
        }
        for t in SUPPORTED {
            for n in ["a.", ".", "a-b.c."] {
                let m = Msg {
                    head: Head { counts: [1, 0, 0, 0], ..gen_head(&mut Rng::new(t as u64)) },
                    qs: vec![Quest { node: n.into(), rtype: t }],
                    secs: [vec![], vec![], vec![]],
                };
                if !e(format!("m {}", msg_case(&m).unwrap())) {
                    return;
                }
            }
        }
        for p in (0..=65535u32).step_by(7).chain(0..300).chain(65000..=65535) {
            if !e(format!("w {}", p)) {
                return;
            }
        }
        for n in [65279usize, 65280, 65534, 65535] {
            // the longest TXT records
            let mut v = vec![];
            let mut left = n;
            while left > 0 {
                let k = (left - 1).min(255);
                v.push("t".repeat(k));
                left -= k + 1;
            }
            let m = Msg {
                head: Head { counts: [0, 1, 0, 0], ..gen_head(&mut Rng::new(1)) },
                qs: vec![],
                secs: [vec![Rec { node: "a.".into(), ttl: 0, data: Data::TXT(v) }], vec![], vec![]],
            };
            if !e(format!("m {}", msg_case(&m).unwrap())) {
                return;
            }
        }
    }
    loop {
        let c = match r.below(10) {
            0 => {
                let n = r.range(1, 10);
                let ps: Vec<String> = (0..n)
                    .map(|_| {
                        let m = *r.pick(&[10usize, 100, 65536]);
                        r.below(m).to_string()
                    })
                    .collect();
                format!("w {}", ps.join(","))
            }
            _ => match msg_case(&gen_msg(r)) {
                Some(c) => format!("m {}", c),
                None => continue,
            },
        };
        if !emit(c) {
            return;
        }
    }
}

pub fn check_c03(case: &str) -> Res {
    let (k, a) = case.split_once(' ').unwrap();
    if k == "h" {
        let f = u32::from_str_radix(a, 16).unwrap();
        let (op, rc) = ((f >> 11) & 15, f & 15);
        if op > 2 || rc > 5 {
            return Ok(false);
        }
        let b = [1, 2, (f >> 8) as u8, f as u8, 0, 3, 0xff, 0xff, 0, 0, 0x80, 0];
        let w = dec_head(&b).unwrap();
        let mut buf = BitsBuf::new();
        real_head(&w).encode_to_buf(&mut buf);
        let e = buf.into_vec();
        ensure!(e == b, "header {:?} encoded as {:02x?}", w, e);
        match dns::Header::decode_from_bytes(&e) {
            Ok(h) => ensure!(model_head(&h) == w, "header {:?} decoded as {:?}", w, h),
            Err(e) => return Err(format!("encoded header {:?} refused: {:?}", w, e)),
        }
        return Ok(true);
    }
    let m = if k == "w" {
        let ports: Vec<u32> = a.split(',').map(|x| x.parse().unwrap()).collect();
        let rec = Rec { node: "w.k.s.".into(), ttl: 9, data: Data::WKS([1, 2, 3, 4], 6, ports) };
        Msg {
            head: Head { id: 1, qr: true, op: 0, aa: true, tc: false, rd: false, ra: true, z: 0, rcode: 0, counts: [0, 1, 0, 1] },
            qs: vec![],
            secs: [vec![rec], vec![], vec![Rec { node: ".".into(), ttl: 1, data: Data::A([9, 8, 7, 6]) }]],
        }
    } else {
        match dec_msg(&unhex(a)) {
            Ok(m) => m,
            Err(_) => return Ok(false),
        }
    };
    let mut want = m.clone();
    for s in &mut want.secs {
        for r in s.iter_mut() {
            if let Data::WKS(_, _, p) = &mut r.data {
                p.sort();
                p.dedup();
            }
        }
    }
    let real = real_msg(&m);
    let bytes = match real.encode_to_bytes() {
        Ok(b) => b,
        Err(e) => return Err(format!("{:?} cannot be encoded: {:?}", m, e)),
    };
    match dec_msg(&bytes) {
        Ok(g) => ensure!(g == want, "encoded {:?}, the bytes say {:?}", want, g),
        Err(e) => return Err(format!("the encoding of {:?} is {:?}", want, e)),
    }
    match dns::Message::decode_from_bytes(&bytes) {
        Ok(g) => {
            let g2 = model_msg(&g)?;
            ensure!(g2 == want, "encoded {:?}, decoded {:?}", want, g2);
            for (r, w) in g.answers.iter().chain(&g.authorities).chain(&g.additionals).zip(in_section(&want)) {
                let n = enc_data(&w.data).len();
                ensure!(data_len(r) as usize == n, "data length {} instead of {} in {:?}", data_len(r), n, r);
            }
            let again = g.encode_to_bytes().map_err(|e| format!("encoding again: {:?}", e))?;
            ensure!(again == bytes, "a decoded message is encoded differently: {:?}", want);
        }
        Err(e) => return Err(format!("the encoding of {:?} is refused: {:?}", want, e)),
    }
    for q in &m.qs {
        let mut buf = BitsBuf::new();
        let _ = real_quest(q).encode_to_buf(&mut buf);
        let d = dns::Question::decode_from_bytes(&buf.into_vec()).map_err(|e| format!("question {:?}: {:?}", q, e))?;
        ensure!(&model_quest(&d)? == q, "question {:?} decoded as {:?}", q, d);
    }
    for (i, rec) in in_section(&m).iter().enumerate() {
        let mut buf = BitsBuf::new();
        let _ = real_rec(rec).encode_to_buf(&mut buf);
        let d = dns::Record::decode_from_bytes(&buf.into_vec()).map_err(|e| format!("record {:?}: {:?}", rec, e))?;
        ensure!(&&model_rec(&d)? == &in_section(&want)[i], "record {:?} decoded as {:?}", rec, d);
    }
    Ok(!m.qs.is_empty() || !in_section(&m).is_empty())
}

/// A message of about the length of the limit.
fn gen_about(r: &mut Rng, target: usize) -> Msg {
    let mut m = gen_msg(r);
    let mut guard = 0;
    while enc_msg(&m).len() < target.saturating_sub(20) && guard < 200 {
        guard += 1;
        let s = r.below(4);
        let left = target - enc_msg(&m).len();
        if s == 3 && r.chance(1, 4) {
            m.qs.push(gen_quest(r));
        } else {
            let k = r.range(0, left.min(255));
            let rec = match r.below(3) {
                0 => Rec { node: "a.".into(), ttl: 1, data: Data::A([1, 2, 3, 4]) },
                1 => Rec { node: "b.".into(), ttl: 1, data: Data::TXT(vec!["z".repeat(k)]) },
                _ => gen_rec(r),
            };
            m.secs[s % 3].push(rec);
        }
    }
    let n = enc_msg(&m).len();
    if n + 14 < target && r.chance(2, 3) {
        // exactly the target, or one more, or one less
        let want = target + r.below(3) - 1;
        let k = want - n - 14;
        if k <= 255 {
            m.secs[r.below(3)].push(Rec { node: "b.".into(), ttl: 1, data: Data::TXT(vec!["e".repeat(k)]) });
        }
    }
    m.head.counts = [m.qs.len() as u16, m.secs[0].len() as u16, m.secs[1].len() as u16, m.secs[2].len() as u16];
    m
}

pub fn gen_c04(r: &mut Rng, part: usize, parts: usize, emit: Emit) {
    {
        let mut e = part_emit(part, parts, emit);
        // one record which ends around the limit, in each section
        for sec in 0..3 {
            for k in 440..=500usize {
                for before in 0..2 {
                    let mut m = gen_msg(&mut Rng::new(k as u64));
                    m.qs = vec![Quest { node: "a.".into(), rtype: 1 }];
                    m.secs = [vec![], vec![], vec![]];
                    if before == 1 {
                        m.secs[0].push(Rec { node: "c.".into(), ttl: 1, data: Data::A([1, 2, 3, 4]) });
                    }
                    let l = k - 240;
                    m.secs[sec].push(Rec { node: "b.".into(), ttl: 1, data: Data::TXT(vec!["e".repeat(240), "f".repeat(l.min(255))]) });
                    if k % 2 == 0 {
                        m.secs[2].push(Rec { node: "c.".into(), ttl: 1, data: Data::A([1, 2, 3, 4]) });
                    }
                    m.head.tc = k % 3 == 0;
                    m.head.counts =
                        [m.qs.len() as u16, m.secs[0].len() as u16, m.secs[1].len() as u16, m.secs[2].len() as u16];
                    if !e(msg_case(&m).unwrap()) {
                        return;
                    }
                }
            }
        }
        // questions only
        for n in 1..60usize {
            let m = Msg {
                head: Head { counts: [n as u16, 0, 0, 1], ..gen_head(&mut Rng::new(n as u64)) },
                qs: vec![Quest { node: "abcdefghijk.lm.".into(), rtype: 1 }; n],
                secs: [vec![], vec![], vec![Rec { node: "c.".into(), ttl: 1, data: Data::A([1, 2, 3, 4]) }]],
            };
            if !e(msg_case(&m).unwrap()) {
                return;
            }
        }
    }
    loop {
        let m = if r.chance(1, 5) { gen_msg(r) } else { gen_about(r, 512) };
        if let Some(c) = msg_case(&m) {
            if !emit(c) {
                return;
            }
        }
    }
}

pub fn check_c04(case: &str) -> Res {
    let m = match dec_msg(&unhex(case)) {
        Ok(m) => m,
        Err(_) => return Ok(false),
    };
    let bytes = match real_msg(&m).encode_to_bytes_trunc() {
        Ok(b) => b,
        Err(e) => return Err(format!("{:?} cannot be encoded: {:?}", m, e)),
    };
    ensure!(bytes.len() <= 512, "{} bytes encoding {:?}", bytes.len(), m);

    // the longest prefix of the entries which fits
    let mut len = 12;
    let mut want = m.clone();
    want.qs.clear();
    want.secs = [vec![], vec![], vec![]];
    let mut dropped = false;
    for q in &m.qs {
        len += enc_quest(q).len();
        if len > 512 {
            dropped = true;
            break;
        }
        want.qs.push(q.clone());
    }
    'out: for s in 0..3 {
        if dropped {
            break;
        }
        for rec in &m.secs[s] {
            len += enc_rec(rec).len();
            if len > 512 {
                dropped = true;
                break 'out;
            }
            want.secs[s].push(rec.clone());
        }
    }
    if dropped {
        want.head.tc = true;
    }
    want.head.counts = [want.qs.len() as u16, want.secs[0].len() as u16, want.secs[1].len() as u16, want.secs[2].len() as u16];
    match dec_msg(&bytes) {
        Ok(g) => ensure!(g == want, "truncated to {:?}, expected {:?}", g, want),
        Err(e) => return Err(format!("the truncated encoding of {:?} is {:?}", m, e)),
    }
    ensure!(enc_msg(&want).len() == bytes.len(), "bytes after the last entry: {:?}", m);
    match dns::Message::decode_from_bytes(&bytes) {
        Ok(g) => {
            let g = model_msg(&g)?;
            ensure!(g == want, "truncated to {:?}, expected {:?}", g, want)
        }
        Err(e) => return Err(format!("the truncated encoding of {:?} is refused: {:?}", m, e)),
    }
    if !dropped {
        let full = real_msg(&m).encode_to_bytes().map_err(|e| format!("{:?}", e))?;
        ensure!(full == bytes, "not truncated, but the full encoding is different: {:?}", m);
    }
    Ok(dropped)
}

// ------------------------------------------------------------------ C05

fn gen_text(r: &mut Rng) -> String {
    let mut s = gen_name(r);
    let cs = ['.', '-', '_', ' ', 'é', '*', '\\', '@', 'a', '0', '\u{0}', '\u{7f}', 'İ', '٣', '𝟘'];
    for _ in 0..r.below(3) {
        let n = s.chars().count();
        let mut v: Vec<char> = s.chars().collect();
        match r.below(4) {
            0 => v.insert(r.below(n + 1), *r.pick(&cs)),
            1 if n > 0 => {
                v.remove(r.below(n));
            }
            2 if n > 0 => v[r.below(n)] = *r.pick(&cs),
            _ => v.push('.'),
        }
        s = v.into_iter().collect();
    }
    s
}

/// Names which differ little from each other.
fn gen_related(r: &mut Rng, s: &str) -> String {
    let mut ls = labels_of(s);
    for _ in 0..r.below(3) {
        let n = ls.len();
        match r.below(6) {
            0 if n > 0 => {
                ls.remove(0);
            }
            1 => ls.insert(0, gen_label(r)),
            2 if n > 0 => {
                let i = r.below(n);
                ls[i] = format!("x{}", ls[i]);
            }
            3 if n > 0 => {
                let i = r.below(n);
                ls[i] = gen_label(r);
            }
            4 if n > 0 => {
                ls.remove(r.below(n));
            }
            _ => {
                // the first label without its first characters
                if n > 0 && ls[0].len() > 1 {
                    ls[0].remove(0);
                }
            }
        }
    }
    let mut out: String = ls.iter().map(|l| format!("{}.", l)).collect();
    if out.is_empty() {
        out = ".".into();
    }
    if valid_name(&out) {
        out
    } else {
        s.to_string()
    }
}

pub fn gen_c05(r: &mut Rng, part: usize, parts: usize, emit: Emit) {
    {
        let mut e = part_emit(part, parts, emit);
        // all the short texts over a few characters
        let cs = ['a', 'Z', '0', '-', '.', '_', 'é'];
        let mut level = vec![String::new()];
        for _ in 0..6 {
            let mut next = vec![];
            for s in &level {
                if !e(format!("v {}", word(s))) {
                    return;
                }
                for c in cs {
                    next.push(format!("{}{}", s, c));
                }
            }
            level = next;
            if level.len() > 120_000 {
                break;
            }
        }
        for c in (0..0x300).chain(0xff00..0xff60).chain([0x2e80, 0x3002, 0xff0e, 0x1F600]) {
            if let Some(c) = char::from_u32(c) {
                for s in [format!("{}.", c), format!("a{}.", c), format!("{}a.", c), format!("a{}b.c.", c), format!("a.b{}c.", c)] {
                    if !e(format!("v {}", word(&s))) {
                        return;
                    }
                }
            }
        }
        for n in 0..300usize {
            for k in [1usize, 10, 61, 62, 63, 64] {
                let mut s = String::new();
                while s.len() < n {
                    let l = k.min(n - s.len() - 1);
                    s.push_str(&"a".repeat(l));
                    s.push('.');
                }
                if !e(format!("v {}", word(&s))) {
                    return;
                }
            }
        }
        // all the pairs of a few names
        let names = [
            ".", "a.", "b.", "aa.", "a.a.", "b.a.", "ba.", "a.b.", "a.a.a.", "c.b.a.", "b.a.c.", "xb.a.", "A.", "B.a.", "b-a.", "ab.a.",
            "com.", "example.com.", "myexample.com.", "example.com.au.", "www.example.com.", "wwwexample.com.", "e.xample.com.",
        ];
        for a in names {
            for b in names {
                if !e(format!("z {} {}", a, b)) {
                    return;
                }
                for c in ["a.", "b.a.", ".", "c.b.a.", "example.com."] {
                    if !e(format!("o {} {} {} {}", a, b, c, names[(a.len() * 7 + b.len() * 3) % names.len()])) {
                        return;
                    }
                }
            }
        }
    }
    loop {
        let c = match r.below(8) {
            0 | 1 => format!("v {}", word(&gen_text(r))),
            2 | 3 => {
                let a = gen_name(r);
                let b = gen_related(r, &a);
                format!("z {} {}", a, b)
            }
            4 => {
                let a = gen_name(r);
                let v: Vec<String> = (0..r.range(1, 4)).map(|_| gen_related(r, &a)).collect();
                format!("o {} {}", a, v.join(" "))
            }
            5 => format!("w {}", gen_name(r)),
            6 => {
                let m = gen_pointers(r);
                format!("f {} {}", *r.pick(&[12usize, 12, 13, 18]), hex(&m))
            }
            _ => {
                let mut b = wire_name(&gen_name(r));
                if r.chance(2, 3) {
                    mutate(&mut b, r);
                }
                format!("f 0 {}", hex(&b))
            }
        };
        if !emit(c) {
            return;
        }
    }
}

pub fn check_c05(case: &str) -> Res {
    let (k, a) = case.split_once(' ').unwrap();
    match k {
        "v" => {
            let s = unword(a);
            let got = dns::Name::from_string(&s);
            let want = valid_name(&s);
            ensure!(got.is_ok() == want, "the text {:?} gives {:?}, valid: {}", s, got, want);
            if let Ok(n) = got {
                ensure!(text(&n) == s, "the text {:?} gives the name {:?}", s, n);
                return Ok(true);
            }
            Ok(!s.is_empty())
        }
        "z" => {
            let (a, z) = a.split_once(' ').unwrap();
            let (na, nz) = (name(a), name(z));
            let want = in_zone(a, z);
            ensure!(na.is_in_zone(&nz) == want, "{} in {}: {}, expected {}", a, z, na.is_in_zone(&nz), want);
            ensure!(na.is_in_zone_root(&nz) == (a == z), "{} is the top of {}: {}", a, z, na.is_in_zone_root(&nz));
            ensure!(nz.is_in_zone(&na) == in_zone(z, a), "{} in {}", z, a);
            ensure!((na == nz) == (a == z), "{} equal to {}: {}", a, z, na == nz);
            ensure!(na.is_in_zone(&name(".")), "{} is not in the root zone", a);
            ensure!(na.is_in_zone(&na), "{} is not in itself", a);
            Ok(a != z)
        }
        "o" => {
            let v: Vec<&str> = a.split(' ').collect();
            let subs: Vec<dns::Name> = v[2..].iter().map(|s| name(s)).collect();
            let want = in_zone(v[0], v[1]) && !v[2..].iter().any(|s| in_zone(v[0], s));
            let got = name(v[0]).is_only_in_auth_zone(&name(v[1]), &subs);
            ensure!(got == want, "{} only in {} without {:?}: {}", v[0], v[1], &v[2..], got);
            Ok(true)
        }
        "w" => {
            let n = name(a);
            let b = n.to_bytes();
            ensure!(b == wire_name(a), "the name {} is encoded as {:02x?}", a, b);
            let mut buf = BitsBuf::from_raw_bytes(&b);
            match dns::Name::from_bytes(&mut buf) {
                Ok(m) => ensure!(text(&m) == a, "the name {} is decoded as {}", a, m),
                Err(e) => return Err(format!("the encoding of the name {} is refused: {:?}", a, e)),
            }
            Ok(true)
        }
        _ => {
            let (p, h) = a.split_once(' ').unwrap();
            let p: usize = p.parse().unwrap();
            let b = unhex(h);
            if p > b.len() {
                return Ok(false);
            }
            let mut buf = BitsBuf::from_raw_bytes(&b);
            buf.set_read_pos(p * 8);
            let got = dns::Name::from_bytes(&mut buf);
            let want = dec_name(&b, p);
            match (got, want) {
                (Ok(g), Ok((w, e))) => {
                    ensure!(text(&g) == w, "decoded {}, expected {}", g, w);
                    ensure!(valid_name(&w), "decoded the invalid name {}", g);
                    ensure!(buf.read_pos() == e * 8, "the next field starts at {}, expected {}", buf.read_pos(), e * 8);
                    Ok(true)
                }
                (Err(_), Err(_)) => Ok(true),
                (g, w) => Err(format!("decoded {:?}, expected {:?}", g, w)),
            }
        }
    }
}

// ------------------------------------------------------------------ C18

const TYPE_NAMES: [(u16, &str); 20] = [
    (1, "A"), (2, "NS"), (3, "MD"), (4, "MF"), (5, "CNAME"), (6, "SOA"), (7, "MB"), (8, "MG"), (9, "MR"), (10, "NULL"),
    (11, "WKS"), (12, "PTR"), (13, "HINFO"), (14, "MINFO"), (15, "MX"), (16, "TXT"), (252, "AXFR"), (253, "MAILB"),
    (254, "MAILA"), (255, "*"),
];

pub fn gen_c18(r: &mut Rng, part: usize, parts: usize, emit: Emit) {
    {
        let mut e = part_emit(part, parts, emit);
        for n in 0..=65535u32 {
            if !e(format!("n {}", n)) {
                return;
            }
        }
        let mut words: Vec<String> = TYPE_NAMES.iter().map(|x| x.1.to_string()).collect();
        words.extend(["IN", "CS", "CH", "HS", "", "a", "ns", "ANY", "in", "TXT ", " A", "**", "MAIL", "AAAA", "AX", "SO", "SOAA"].map(String::from));
        for w in words {
            if !e(format!("s {}", word(&w))) {
                return;
            }
        }
        for n in 0..600usize {
            if !e(format!("c {}", word(&"q".repeat(n)))) {
                return;
            }
            if n > 1 && !e(format!("c {}", word(&format!("{}é", "q".repeat(n - 2))))) {
                return;
            }
        }
        for n in 0..=255u32 {
            for bytes in [vec![b'a'; n as usize], vec![0xff; n as usize], vec![b'a'; (n as usize).saturating_sub(1)]] {
                let mut b = vec![n as u8];
                b.extend(bytes);
                if !e(format!("d {}", hex(&b))) {
                    return;
                }
            }
        }
    }
    loop {
        let c = match r.below(3) {
            0 => format!("c {}", word(&gen_chars(r))),
            1 => {
                let n = r.below(6);
                let s: String = (0..n).map(|_| *r.pick(&['A', 'N', 'S', 'I', 'X', 'T', 'M', '*', 'a', 'C', 'H'])).collect();
                format!("s {}", word(&s))
            }
            _ => {
                let n = r.below(12);
                let mut b: Vec<u8> = (0..n).map(|_| *r.pick(&[b'a', 0x80, 0xc3, 0xa9, 0xff, b' ', 0xf0, 0x9f])).collect();
                b.insert(0, r.below(n + 2) as u8);
                format!("d {}", hex(&b))
            }
        };
        if !emit(c) {
            return;
        }
    }
}

pub fn check_c18(case: &str) -> Res {
    let (k, a) = case.split_once(' ').unwrap();
    match k {
        "n" => {
            let n: u16 = a.parse().unwrap();
            match dns::RecordType::from_num(n) {
                Ok(t) => {
                    ensure!(known(n) && model_type(t) == n, "type number {} read as {:?}", n, t);
                    ensure!(t.to_num() == n, "type {:?} written as {}, it is {}", t, t.to_num(), n);
                    let s = TYPE_NAMES.iter().find(|x| x.0 == n).unwrap().1;
                    ensure!(t.to_str() == s, "type {:?} written as {:?}", t, t.to_str());
                    ensure!(dns::RecordType::from_str(s).ok() == Some(t), "type text {:?} not read as {:?}", s, t);
                    ensure!(t.is_supported_for_records() == supported(n), "type {:?} supported for records: {}", t, t.is_supported_for_records());
                    ensure!(t.is_supported_for_question() == supported(n), "type {:?} supported for questions: {}", t, t.is_supported_for_question());
                }
                Err(e) => ensure!(!known(n) && e == n, "type number {} refused as {}", n, e),
            }
            match dns::Class::from_num(n) {
                Ok(c) => {
                    let w = match c {
                        dns::Class::IN => 1,
                        dns::Class::CS => 2,
                        dns::Class::CH => 3,
                        dns::Class::HS => 4,
                        dns::Class::WC => 255,
                    };
                    ensure!(w == n && c.to_num() == n, "class number {} read as {:?}, written as {}", n, c, c.to_num());
                    ensure!(c.is_supported() == (n == 1), "class {:?} supported: {}", c, c.is_supported());
                }
                Err(e) => ensure!(![1, 2, 3, 4, 255].contains(&n) && e == n, "class number {} refused as {}", n, e),
            }
            if n < 256 {
                match dns::OpCode::from_num(n as u8) {
                    Ok(o) => {
                        let w = match o {
                            dns::OpCode::STD => 0,
                            dns::OpCode::INV => 1,
                            dns::OpCode::STS => 2,
                        };
                        ensure!(w == n && o.to_num() as u16 == n, "op code {} read as {:?}, written as {}", n, o, o.to_num());
                    }
                    Err(e) => ensure!(n > 2 && e as u16 == n, "op code {} refused as {}", n, e),
                }
                let b = [0, 0, 0, n as u8, 0, 0, 0, 0, 0, 0, 0, 0];
                match dns::Header::decode_from_bytes(&b) {
                    Ok(h) => {
                        ensure!(rcode_num(&h.resp_code) == n as u8 & 15, "resp code {} read as {:?}", n & 15, h.resp_code);
                        let mut buf = BitsBuf::new();
                        h.encode_to_buf(&mut buf);
                        ensure!(buf.into_vec()[3] == n as u8, "resp code {:?} not written back", h.resp_code);
                    }
                    Err(_) => ensure!(n & 15 > 5, "resp code {} refused", n & 15),
                }
            }
            Ok(known(n) || n < 6)
        }
        "s" => {
            let s = unword(a);
            let want = TYPE_NAMES.iter().find(|x| x.1 == s).map(|x| x.0);
            match dns::RecordType::from_str(&s) {
                Ok(t) => ensure!(want == Some(model_type(t)), "type text {:?} read as {:?}", s, t),
                Err(e) => ensure!(want.is_none() && e == s, "type text {:?} refused as {:?}", s, e),
            }
            match dns::Class::from_string(&s) {
                Ok(c) => {
                    let w = match c {
                        dns::Class::IN => "IN",
                        dns::Class::CS => "CS",
                        dns::Class::CH => "CH",
                        dns::Class::HS => "HS",
                        dns::Class::WC => "*",
                    };
                    ensure!(w == s, "class text {:?} read as {:?}", s, c);
                }
                Err(e) => ensure!(!["IN", "CS", "CH", "HS", "*"].contains(&s.as_str()) && e == s, "class text {:?} refused", s),
            }
            Ok(want.is_some())
        }
        "c" => {
            let s = unword(a);
            match dns::encode_character_string(&s) {
                Ok(b) => {
                    ensure!(s.len() <= 255, "a string of {} bytes is encoded", s.len());
                    ensure!(b.len() == s.len() + 1 && b[0] as usize == s.len() && &b[1..] == s.as_bytes(), "{:?} encoded as {:02x?}", s, b);
                    let mut more = b.clone();
                    more.extend([7, 7]);
                    let mut buf = BitsBuf::from_raw_bytes(&more);
                    match dns::decode_character_string(&mut buf) {
                        Ok(t) => ensure!(t == s && buf.read_pos() == b.len() * 8, "{:?} decoded as {:?}", s, t),
                        Err(e) => return Err(format!("the encoding of {:?} is refused: {:?}", s, e)),
                    }
                }
                Err(e) => ensure!(s.len() > 255, "{:?} cannot be encoded: {:?}", s, e),
            }
            for quoted in [false, true] {
                let want = s.len() <= 255 && s.is_ascii() && (quoted || !s.contains(' '));
                let got = dns::is_valid_character_string(&s, quoted);
                ensure!(got == want, "{:?} is valid (quoted {}): {}", s, quoted, got);
            }
            Ok(true)
        }
        _ => {
            let b = unhex(a);
            let mut buf = BitsBuf::from_raw_bytes(&b);
            let got = dns::decode_character_string(&mut buf);
            let want = if b.is_empty() || b.len() - 1 < b[0] as usize {
                None
            } else {
                String::from_utf8(b[1..1 + b[0] as usize].to_vec()).ok()
            };
            match (got, want) {
                (Ok(g), Some(w)) => ensure!(g == w && buf.read_pos() == (w.len() + 1) * 8, "decoded {:?}, expected {:?}", g, w),
                (Err(_), None) => {}
                (g, w) => return Err(format!("decoded {:?}, expected {:?}", g, w)),
            }
            Ok(true)
        }
    }
}

// ------------------------------------------------------------------ C19

/// A sequence of operations: the initial bytes, then words.
pub fn gen_c19(r: &mut Rng, part: usize, parts: usize, emit: Emit) {
    {
        let mut e = part_emit(part, parts, emit);
        // reads and writes of n bits at each offset
        for off in 0..8 {
            for n in 1..=8 {
                for fill in ["ffffff", "000000", "a55a3c"] {
                    for v in [0u32, 255, 0xa5, 0x5a, 1, 0x80] {
                        if !e(format!("x{} sw{} wb{}:{} sr0 rb{} rb{} rb8 rh rh", fill, off, v, n, off, n)) {
                            return;
                        }
                        if off > 0 && !e(format!("x wb{}:{} wb{}:{} wb3:2 tr{} wb{}:{} sr0 rb{} rb{} rb8", v, off, v ^ 255, n, off + n, v, n, off, n)) {
                            return;
                        }
                    }
                }
            }
        }
    }
    loop {
        let nb = r.below(4);
        let init: Vec<u8> = (0..nb).map(|_| r.next() as u8).collect();
        let mut s = format!("x{}", hex(&init));
        for _ in 0..r.range(1, 25) {
            let op = match r.below(16) {
                0..=3 => format!("wb{}:{}", r.below(256), r.range(1, 8)),
                4 => format!("wo{}", r.below(256)),
                5 => format!("wh{}", r.next() as u16),
                6 => format!("ww{}", r.next() as u32),
                7 => format!("wy{}", hex(&(0..r.below(4)).map(|_| r.next() as u8).collect::<Vec<u8>>())),
                8 | 9 => format!("rb{}", r.range(0, 8)),
                10 => "ro".into(),
                11 => "rh".into(),
                12 => (*r.pick(&["rw", "ry", "rv0", "rv1", "rv3"])).into(),
                13 => format!("sr{}", r.below(60)),
                14 => format!("sw{}", r.below(60)),
                _ => format!("tr{}", r.below(80)),
            };
            s.push(' ');
            s.push_str(&op);
        }
        if !emit(s) {
            return;
        }
    }
}

struct Bits {
    v: Vec<bool>,
    r: usize,
    w: usize,
}

impl Bits {
    fn write(&mut self, x: u64, n: usize) {
        for i in 0..n {
            let b = x >> (n - 1 - i) & 1 == 1;
            if self.w < self.v.len() {
                self.v[self.w] = b;
            } else {
                self.v.push(b);
            }
            self.w += 1;
        }
    }
    fn read(&mut self, n: usize) -> Option<u64> {
        if self.r + n > self.v.len() {
            return None;
        }
        let mut x = 0;
        for _ in 0..n {
            x = x * 2 + self.v[self.r] as u64;
            self.r += 1;
        }
        Some(x)
    }
}

pub fn check_c19(case: &str) -> Res {
    let mut ws = case.split(' ');
    let init = unhex(&ws.next().unwrap()[1..]);
    let mut real = if init.is_empty() { BitsBuf::new() } else { BitsBuf::from_raw_bytes(&init) };
    let mut m = Bits { v: vec![], r: 0, w: 0 };
    for b in &init {
        m.write(*b as u64, 8);
    }
    for op in ws {
        let (k, a) = op.split_at(2);
        let num = |s: &str| s.parse::<u64>().unwrap();
        match k {
            "wb" => {
                let (v, n) = a.split_once(':').unwrap();
                real.write_bits(num(v) as u8, num(n) as u8);
                m.write(num(v), num(n) as usize);
            }
            "wo" => {
                real.write_u8(num(a) as u8);
                m.write(num(a), 8);
            }
            "wh" => {
                real.write_u16(num(a) as u16);
                m.write(num(a), 16);
            }
            "ww" => {
                real.write_u32(num(a) as u32);
                m.write(num(a), 32);
            }
            "wy" => {
                let b = unhex(a);
                real.write_bytes(&b);
                for x in b {
                    m.write(x as u64, 8);
                }
            }
            "rb" => {
                let (g, w) = (real.read_bits(num(a) as u8).map(|x| x as u64), m.read(num(a) as usize));
                ensure!(g == w, "{} returns {:?}, expected {:?}", op, g, w);
            }
            "ro" => {
                let (g, w) = (real.read_u8().map(|x| x as u64), m.read(8));
                ensure!(g == w, "{} returns {:?}, expected {:?}", op, g, w);
            }
            "rh" => {
                let (g, w) = (real.read_u16().map(|x| x as u64), m.read(16));
                ensure!(g == w, "{} returns {:?}, expected {:?}", op, g, w);
            }
            "rw" => {
                let (g, w) = (real.read_u32().map(|x| x as u64), m.read(32));
                ensure!(g == w, "{} returns {:?}, expected {:?}", op, g, w);
            }
            "ry" => {
                let g = real.read_bytes::<4>().map(|x| u32::from_be_bytes(x) as u64);
                let w = m.read(32);
                ensure!(g == w, "{} returns {:?}, expected {:?}", op, g, w);
            }
            "rv" => {
                let n = num(a) as usize;
                let g = real.read_bytes_vec(n);
                let w = if m.r + n * 8 > m.v.len() { None } else { Some((0..n).map(|_| m.read(8).unwrap() as u8).collect::<Vec<u8>>()) };
                ensure!(g == w, "{} returns {:?}, expected {:?}", op, g, w);
            }
            "sr" => {
                let p = num(a) as usize;
                if p <= m.v.len() {
                    real.set_read_pos(p);
                    m.r = p;
                }
            }
            "sw" => {
                let p = num(a) as usize;
                if p <= m.v.len() {
                    real.set_write_pos(p);
                    m.w = p;
                }
            }
            _ => {
                let p = num(a) as usize;
                real.truncate(p);
                if p < m.v.len() {
                    m.v.truncate(p);
                    m.r = m.r.min(p);
                    m.w = m.w.min(p);
                }
            }
        }
        ensure!(real.len() == m.v.len(), "after {}: length {}, expected {}", op, real.len(), m.v.len());
        ensure!(real.read_pos() == m.r, "after {}: read position {}, expected {}", op, real.read_pos(), m.r);
        ensure!(real.write_pos() == m.w, "after {}: write position {}, expected {}", op, real.write_pos(), m.w);
    }
    let got = real.into_vec();
    let mut want = vec![0u8; (m.v.len() + 7) / 8];
    for (i, b) in m.v.iter().enumerate() {
        if *b {
            want[i / 8] |= 0x80 >> (i % 8);
        }
    }
    ensure!(got == want, "the bytes are {:02x?}, expected {:02x?}", got, want);
    Ok(!want.is_empty())
}
