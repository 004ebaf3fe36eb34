//! An independent executable reading of RFC 1035 (and of the stated limits of the
//! implementation), used as the oracle of the searches. It shares no code with /repo.

use crate::util::Rng;
use ariadne_dns::shared::dns;

#[derive(Clone, Debug, PartialEq)]
pub enum Data {
    A([u8; 4]),
    NS(String),
    CNAME(String),
    SOA(String, String, [u32; 5]),
    WKS([u8; 4], u8, Vec<u32>),
    PTR(String),
    HINFO(String, String),
    MX(u16, String),
    TXT(Vec<String>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub node: String,
    pub ttl: u32,
    pub data: Data,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Quest {
    pub node: String,
    pub rtype: u16,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Head {
    pub id: u16,
    pub qr: bool,
    pub op: u8,
    pub aa: bool,
    pub tc: bool,
    pub rd: bool,
    pub ra: bool,
    pub z: u8,
    pub rcode: u8,
    pub counts: [u16; 4],
}

#[derive(Clone, Debug, PartialEq)]
pub struct Msg {
    pub head: Head,
    pub qs: Vec<Quest>,
    pub secs: [Vec<Rec>; 3],
}

/// The class of a decoding error.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    Unsupported,
    Malformed,
}

// ------------------------------------------------------------------ names

pub fn alnum(c: char) -> bool {
    ('a'..='z').contains(&c) || ('A'..='Z').contains(&c) || ('0'..='9').contains(&c)
}

pub fn valid_label(l: &[char]) -> bool {
    !l.is_empty()
        && l.len() <= 63
        && alnum(l[0])
        && alnum(l[l.len() - 1])
        && l.iter().all(|c| alnum(*c) || *c == '-')
}

/// The labels of an absolute name, none for the root.
pub fn labels_of(s: &str) -> Vec<String> {
    if s == "." {
        return vec![];
    }
    let cs: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut cur = String::new();
    for c in &cs[..cs.len() - 1] {
        if *c == '.' {
            out.push(cur);
            cur = String::new();
        } else {
            cur.push(*c);
        }
    }
    out.push(cur);
    out
}

pub fn valid_name(s: &str) -> bool {
    if s == "." {
        return true;
    }
    let n = s.chars().count();
    if n == 0 || s.len() > 254 || s.chars().last() != Some('.') {
        return false;
    }
    labels_of(s).iter().all(|l| valid_label(&l.chars().collect::<Vec<char>>()))
}

pub fn in_zone(s: &str, zone: &str) -> bool {
    let (a, b) = (labels_of(s), labels_of(zone));
    b.len() <= a.len() && a[a.len() - b.len()..] == b[..]
}

pub fn wire_name(s: &str) -> Vec<u8> {
    let mut out = vec![];
    for l in labels_of(s) {
        out.push(l.len() as u8);
        out.extend_from_slice(l.as_bytes());
    }
    out.push(0);
    out
}

/// The name at a position and the position after it.
pub fn dec_name(b: &[u8], start: usize) -> Result<(String, usize), Bad> {
    let mut pos = start;
    let mut end = None;
    let mut jumps = 0;
    let mut labels: Vec<Vec<u8>> = vec![];
    let mut budget = 20_000;
    loop {
        budget -= 1;
        if budget == 0 {
            return Err(Bad::Malformed);
        }
        if pos >= b.len() {
            return Err(Bad::Malformed);
        }
        let l = b[pos] as usize;
        if l >= 0xc0 {
            if jumps == 16 || pos + 1 >= b.len() {
                return Err(Bad::Malformed);
            }
            let target = (l - 0xc0) * 256 + b[pos + 1] as usize;
            if target > b.len() {
                return Err(Bad::Malformed);
            }
            if end.is_none() {
                end = Some(pos + 2);
            }
            jumps += 1;
            pos = target;
        } else if l >= 0x40 {
            return Err(Bad::Malformed);
        } else if l == 0 {
            let end = end.unwrap_or(pos + 1);
            if labels.is_empty() {
                return Ok((".".to_string(), end));
            }
            let mut s = String::new();
            for l in &labels {
                let cs: Vec<char> = l.iter().map(|b| *b as char).collect();
                if !valid_label(&cs) {
                    return Err(Bad::Malformed);
                }
                s.extend(cs);
                s.push('.');
            }
            if s.len() > 254 {
                return Err(Bad::Malformed);
            }
            return Ok((s, end));
        } else {
            if pos + 1 + l > b.len() {
                return Err(Bad::Malformed);
            }
            labels.push(b[pos + 1..pos + 1 + l].to_vec());
            pos += 1 + l;
        }
    }
}

// ------------------------------------------------------------------ types

pub const SUPPORTED: [u16; 9] = [1, 2, 5, 6, 11, 12, 13, 15, 16];
pub const UNSUPPORTED: [u16; 11] = [3, 4, 7, 8, 9, 10, 14, 252, 253, 254, 255];

pub fn supported(t: u16) -> bool {
    SUPPORTED.contains(&t)
}

pub fn known(t: u16) -> bool {
    supported(t) || UNSUPPORTED.contains(&t)
}

pub fn type_of(d: &Data) -> u16 {
    match d {
        Data::A(..) => 1,
        Data::NS(..) => 2,
        Data::CNAME(..) => 5,
        Data::SOA(..) => 6,
        Data::WKS(..) => 11,
        Data::PTR(..) => 12,
        Data::HINFO(..) => 13,
        Data::MX(..) => 15,
        Data::TXT(..) => 16,
    }
}

// ------------------------------------------------------------------ decoding

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
}

impl<'a> Cur<'a> {
    fn u8(&mut self) -> Result<u8, Bad> {
        let v = *self.b.get(self.p).ok_or(Bad::Malformed)?;
        self.p += 1;
        Ok(v)
    }
    fn u16(&mut self) -> Result<u16, Bad> {
        if self.p + 2 > self.b.len() {
            return Err(Bad::Malformed);
        }
        Ok(self.u8()? as u16 * 256 + self.u8()? as u16)
    }
    fn u32(&mut self) -> Result<u32, Bad> {
        if self.p + 4 > self.b.len() {
            return Err(Bad::Malformed);
        }
        Ok(self.u16()? as u32 * 65536 + self.u16()? as u32)
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], Bad> {
        if self.p + n > self.b.len() {
            return Err(Bad::Malformed);
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn name(&mut self) -> Result<String, Bad> {
        let (n, e) = dec_name(self.b, self.p)?;
        self.p = e;
        Ok(n)
    }
    fn chars(&mut self) -> Result<String, Bad> {
        let n = self.u8()? as usize;
        let b = self.take(n)?;
        String::from_utf8(b.to_vec()).map_err(|_| Bad::Malformed)
    }
}

pub fn dec_head(b: &[u8]) -> Result<Head, Bad> {
    let mut c = Cur { b, p: 0 };
    let id = c.u16()?;
    let f1 = c.u8()?;
    let op = (f1 >> 3) & 15;
    if op > 2 {
        return Err(Bad::Malformed);
    }
    let f2 = c.u8()?;
    let rcode = f2 & 15;
    if rcode > 5 {
        return Err(Bad::Malformed);
    }
    let counts = [c.u16()?, c.u16()?, c.u16()?, c.u16()?];
    Ok(Head {
        id,
        qr: f1 & 0x80 != 0,
        op,
        aa: f1 & 4 != 0,
        tc: f1 & 2 != 0,
        rd: f1 & 1 != 0,
        ra: f2 & 0x80 != 0,
        z: (f2 >> 4) & 7,
        rcode,
        counts,
    })
}

/// None for entries of unknown types, which are skipped.
fn dec_quest(c: &mut Cur) -> Result<Option<Quest>, Bad> {
    let node = c.name()?;
    let rtype = c.u16()?;
    if !known(rtype) {
        c.u16()?;
        return Ok(None);
    }
    if !supported(rtype) {
        return Err(Bad::Unsupported);
    }
    dec_class(c.u16()?)?;
    Ok(Some(Quest { node, rtype }))
}

fn dec_class(n: u16) -> Result<(), Bad> {
    match n {
        1 => Ok(()),
        2 | 3 | 4 | 255 => Err(Bad::Unsupported),
        _ => Err(Bad::Malformed),
    }
}

fn dec_rec(c: &mut Cur) -> Result<Option<Rec>, Bad> {
    let node = c.name()?;
    let t = c.u16()?;
    if !known(t) {
        c.u16()?;
        c.u32()?;
        let n = c.u16()?;
        c.take(n as usize)?;
        return Ok(None);
    }
    if !supported(t) {
        return Err(Bad::Unsupported);
    }
    dec_class(c.u16()?)?;
    let ttl = c.u32()?;
    let len = c.u16()? as usize;
    let start = c.p;
    let data = match t {
        1 => {
            if len != 4 {
                return Err(Bad::Malformed);
            }
            Data::A(c.take(4)?.try_into().unwrap())
        }
        2 => Data::NS(c.name()?),
        5 => Data::CNAME(c.name()?),
        6 => {
            let (a, b) = (c.name()?, c.name()?);
            Data::SOA(a, b, [c.u32()?, c.u32()?, c.u32()?, c.u32()?, c.u32()?])
        }
        11 => {
            if len < 5 {
                return Err(Bad::Malformed);
            }
            let a = c.take(4)?.try_into().unwrap();
            let p = c.u8()?;
            let bits = c.take(len - 5)?;
            let mut ports = vec![];
            for i in 0..bits.len() * 8 {
                if bits[i / 8] >> (7 - i % 8) & 1 == 1 {
                    ports.push(i as u32);
                }
            }
            Data::WKS(a, p, ports)
        }
        12 => Data::PTR(c.name()?),
        13 => {
            let a = c.chars()?;
            Data::HINFO(a, c.chars()?)
        }
        15 => {
            let p = c.u16()?;
            Data::MX(p, c.name()?)
        }
        _ => {
            let mut v = vec![];
            loop {
                let n = *c.b.get(c.p).ok_or(Bad::Malformed)? as usize;
                if c.p - start + 1 + n > len {
                    return Err(Bad::Malformed);
                }
                v.push(c.chars()?);
                if c.p - start == len {
                    break;
                }
            }
            Data::TXT(v)
        }
    };
    if c.p - start != len {
        return Err(Bad::Malformed);
    }
    Ok(Some(Rec { node, ttl, data }))
}

pub fn dec_one_rec(b: &[u8]) -> Result<Option<Rec>, Bad> {
    dec_rec(&mut Cur { b, p: 0 })
}

pub fn dec_one_quest(b: &[u8]) -> Result<Option<Quest>, Bad> {
    dec_quest(&mut Cur { b, p: 0 })
}

pub fn dec_msg(b: &[u8]) -> Result<Msg, Bad> {
    let head = dec_head(b)?;
    if head.op != 0 {
        return Err(Bad::Unsupported);
    }
    let mut c = Cur { b, p: 12 };
    let mut qs = vec![];
    for _ in 0..head.counts[0] {
        if let Some(q) = dec_quest(&mut c)? {
            qs.push(q);
        }
    }
    let mut secs = [vec![], vec![], vec![]];
    for s in 0..3 {
        for _ in 0..head.counts[s + 1] {
            if let Some(r) = dec_rec(&mut c)? {
                secs[s].push(r);
            }
        }
    }
    Ok(Msg { head, qs, secs })
}

// ------------------------------------------------------------------ encoding

pub fn enc_head(h: &Head) -> Vec<u8> {
    let mut out = h.id.to_be_bytes().to_vec();
    out.push((h.qr as u8) << 7 | h.op << 3 | (h.aa as u8) << 2 | (h.tc as u8) << 1 | h.rd as u8);
    out.push((h.ra as u8) << 7 | h.z << 4 | h.rcode);
    for c in h.counts {
        out.extend(c.to_be_bytes());
    }
    out
}

fn enc_chars(s: &str) -> Vec<u8> {
    let mut v = vec![s.len() as u8];
    v.extend(s.as_bytes());
    v
}

pub fn enc_data(d: &Data) -> Vec<u8> {
    match d {
        Data::A(a) => a.to_vec(),
        Data::NS(n) | Data::CNAME(n) | Data::PTR(n) => wire_name(n),
        Data::SOA(a, b, v) => {
            let mut o = wire_name(a);
            o.extend(wire_name(b));
            for x in v {
                o.extend(x.to_be_bytes());
            }
            o
        }
        Data::WKS(a, p, ports) => {
            let mut o = a.to_vec();
            o.push(*p);
            if let Some(m) = ports.iter().max() {
                let mut bits = vec![0u8; *m as usize / 8 + 1];
                for p in ports {
                    bits[*p as usize / 8] |= 1 << (7 - p % 8);
                }
                o.extend(bits);
            }
            o
        }
        Data::HINFO(a, b) => {
            let mut o = enc_chars(a);
            o.extend(enc_chars(b));
            o
        }
        Data::MX(p, n) => {
            let mut o = p.to_be_bytes().to_vec();
            o.extend(wire_name(n));
            o
        }
        Data::TXT(v) => v.iter().flat_map(|s| enc_chars(s)).collect(),
    }
}

pub fn enc_quest(q: &Quest) -> Vec<u8> {
    let mut o = wire_name(&q.node);
    o.extend(q.rtype.to_be_bytes());
    o.extend(1u16.to_be_bytes());
    o
}

pub fn enc_rec(r: &Rec) -> Vec<u8> {
    let mut o = wire_name(&r.node);
    o.extend(type_of(&r.data).to_be_bytes());
    o.extend(1u16.to_be_bytes());
    o.extend(r.ttl.to_be_bytes());
    let d = enc_data(&r.data);
    o.extend((d.len() as u16).to_be_bytes());
    o.extend(d);
    o
}

pub fn enc_msg(m: &Msg) -> Vec<u8> {
    let mut o = enc_head(&m.head);
    for q in &m.qs {
        o.extend(enc_quest(q));
    }
    for s in &m.secs {
        for r in s {
            o.extend(enc_rec(r));
        }
    }
    o
}

// ------------------------------------------------------------------ to and from the real types

pub fn name(s: &str) -> dns::Name {
    dns::Name::from_string(s).unwrap_or_else(|e| panic!("harness: name {:?}: {:?}", s, e))
}

pub fn text(n: &dns::Name) -> String {
    let s: &str = n.as_ref();
    s.to_string()
}

pub fn real_type(t: u16) -> dns::RecordType {
    use dns::RecordType::*;
    match t {
        1 => A,
        2 => NS,
        3 => MD,
        4 => MF,
        5 => CNAME,
        6 => SOA,
        7 => MB,
        8 => MG,
        9 => MR,
        10 => NULL,
        11 => WKS,
        12 => PTR,
        13 => HINFO,
        14 => MINFO,
        15 => MX,
        16 => TXT,
        252 => AXFR,
        253 => MAILB,
        254 => MAILA,
        _ => WC,
    }
}

pub fn model_type(t: dns::RecordType) -> u16 {
    use dns::RecordType::*;
    match t {
        A => 1,
        NS => 2,
        MD => 3,
        MF => 4,
        CNAME => 5,
        SOA => 6,
        MB => 7,
        MG => 8,
        MR => 9,
        NULL => 10,
        WKS => 11,
        PTR => 12,
        HINFO => 13,
        MINFO => 14,
        MX => 15,
        TXT => 16,
        AXFR => 252,
        MAILB => 253,
        MAILA => 254,
        WC => 255,
    }
}

pub fn real_rec(r: &Rec) -> dns::Record {
    let node = name(&r.node);
    let (class, ttl, data_len) = (dns::Class::IN, r.ttl, 0);
    use dns::Record as R;
    match &r.data {
        Data::A(a) => R::A { node, class, ttl, data_len, address: *a },
        Data::NS(n) => R::NS { node, class, ttl, data_len, name: name(n) },
        Data::CNAME(n) => R::CNAME { node, class, ttl, data_len, name: name(n) },
        Data::SOA(a, b, v) => R::SOA {
            node,
            class,
            ttl,
            data_len,
            ns_name: name(a),
            ml_name: name(b),
            serial: v[0],
            refresh: v[1],
            retry: v[2],
            expire: v[3],
            minimum: v[4],
        },
        Data::WKS(a, p, v) => R::WKS { node, class, ttl, data_len, address: *a, protocol: *p, ports: v.clone() },
        Data::PTR(n) => R::PTR { node, class, ttl, data_len, name: name(n) },
        Data::HINFO(a, b) => R::HINFO { node, class, ttl, data_len, cpu: a.clone(), os: b.clone() },
        Data::MX(p, n) => R::MX { node, class, ttl, data_len, priority: *p, name: name(n) },
        Data::TXT(v) => R::TXT { node, class, ttl, data_len, txts: v.clone() },
    }
}

fn in_class(c: &dns::Class) -> bool {
    matches!(c, dns::Class::IN)
}

/// The model of a record, an error if its class is not IN.
pub fn model_rec(r: &dns::Record) -> Result<Rec, String> {
    use dns::Record as R;
    let (n, c, t, data) = match r {
        R::A { node, class, ttl, address, .. } => (node, class, ttl, Data::A(*address)),
        R::NS { node, class, ttl, name, .. } => (node, class, ttl, Data::NS(text(name))),
        R::CNAME { node, class, ttl, name, .. } => (node, class, ttl, Data::CNAME(text(name))),
        R::SOA { node, class, ttl, ns_name, ml_name, serial, refresh, retry, expire, minimum, .. } => (
            node,
            class,
            ttl,
            Data::SOA(text(ns_name), text(ml_name), [*serial, *refresh, *retry, *expire, *minimum]),
        ),
        R::WKS { node, class, ttl, address, protocol, ports, .. } => (node, class, ttl, Data::WKS(*address, *protocol, ports.clone())),
        R::PTR { node, class, ttl, name, .. } => (node, class, ttl, Data::PTR(text(name))),
        R::HINFO { node, class, ttl, cpu, os, .. } => (node, class, ttl, Data::HINFO(cpu.clone(), os.clone())),
        R::MX { node, class, ttl, priority, name, .. } => (node, class, ttl, Data::MX(*priority, text(name))),
        R::TXT { node, class, ttl, txts, .. } => (node, class, ttl, Data::TXT(txts.clone())),
    };
    if !in_class(c) {
        return Err(format!("record of class {:?}", c));
    }
    Ok(Rec { node: text(n), ttl: *t, data })
}

pub fn data_len(r: &dns::Record) -> u16 {
    use dns::Record as R;
    match r {
        R::A { data_len, .. }
        | R::NS { data_len, .. }
        | R::CNAME { data_len, .. }
        | R::SOA { data_len, .. }
        | R::WKS { data_len, .. }
        | R::PTR { data_len, .. }
        | R::HINFO { data_len, .. }
        | R::MX { data_len, .. }
        | R::TXT { data_len, .. } => *data_len,
    }
}

fn op_num(o: &dns::OpCode) -> u8 {
    match o {
        dns::OpCode::STD => 0,
        dns::OpCode::INV => 1,
        dns::OpCode::STS => 2,
    }
}

pub fn rcode_num(o: &dns::RespCode) -> u8 {
    match o {
        dns::RespCode::NoError => 0,
        dns::RespCode::FormErr => 1,
        dns::RespCode::ServFail => 2,
        dns::RespCode::NxDomain => 3,
        dns::RespCode::NotImp => 4,
        dns::RespCode::Refused => 5,
    }
}

pub fn model_head(h: &dns::Header) -> Head {
    Head {
        id: h.id,
        qr: h.query_resp,
        op: op_num(&h.op_code),
        aa: h.auth_answer,
        tc: h.truncated,
        rd: h.recursion_desired,
        ra: h.recursion_available,
        z: h.z,
        rcode: rcode_num(&h.resp_code),
        counts: [h.questions_count, h.answers_count, h.authorities_count, h.additionals_count],
    }
}

pub fn real_head(h: &Head) -> dns::Header {
    dns::Header {
        id: h.id,
        query_resp: h.qr,
        op_code: [dns::OpCode::STD, dns::OpCode::INV, dns::OpCode::STS][h.op as usize],
        auth_answer: h.aa,
        truncated: h.tc,
        recursion_desired: h.rd,
        recursion_available: h.ra,
        z: h.z,
        resp_code: [
            dns::RespCode::NoError,
            dns::RespCode::FormErr,
            dns::RespCode::ServFail,
            dns::RespCode::NxDomain,
            dns::RespCode::NotImp,
            dns::RespCode::Refused,
        ][h.rcode as usize],
        questions_count: h.counts[0],
        answers_count: h.counts[1],
        authorities_count: h.counts[2],
        additionals_count: h.counts[3],
    }
}

pub fn model_quest(q: &dns::Question) -> Result<Quest, String> {
    if !in_class(&q.class) {
        return Err(format!("question of class {:?}", q.class));
    }
    Ok(Quest { node: text(&q.node), rtype: model_type(q.record_type) })
}

pub fn real_quest(q: &Quest) -> dns::Question {
    dns::Question { node: name(&q.node), record_type: real_type(q.rtype), class: dns::Class::IN }
}

pub fn model_msg(m: &dns::Message) -> Result<Msg, String> {
    let mut qs = vec![];
    for q in &m.questions {
        qs.push(model_quest(q)?);
    }
    let mut secs = [vec![], vec![], vec![]];
    for (i, s) in [&m.answers, &m.authorities, &m.additionals].iter().enumerate() {
        for r in s.iter() {
            secs[i].push(model_rec(r)?);
        }
    }
    Ok(Msg { head: model_head(&m.header), qs, secs })
}

pub fn real_msg(m: &Msg) -> dns::Message {
    dns::Message {
        header: real_head(&m.head),
        questions: m.qs.iter().map(real_quest).collect(),
        answers: m.secs[0].iter().map(real_rec).collect(),
        authorities: m.secs[1].iter().map(real_rec).collect(),
        additionals: m.secs[2].iter().map(real_rec).collect(),
    }
}

pub fn bad_of(e: &dns::ParsingErr) -> Bad {
    match e {
        dns::ParsingErr::UnsupportedType(_) | dns::ParsingErr::UnsupportedClass(_) | dns::ParsingErr::UnsupportedOpCode(_) => {
            Bad::Unsupported
        }
        _ => Bad::Malformed,
    }
}

// ------------------------------------------------------------------ generators

pub fn gen_label(r: &mut Rng) -> String {
    let n = match r.below(20) {
        0 => 63,
        1 => 62,
        2 => r.range(20, 63),
        _ => r.range(1, 5),
    };
    let ends = ['a', 'b', 'c', 'z', 'A', 'Z', '0', '9', 'm'];
    let mid = ['a', 'b', 'c', '-', 'Z', '0', '9'];
    (0..n)
        .map(|i| if i == 0 || i == n - 1 { *r.pick(&ends) } else { *r.pick(&mid) })
        .collect()
}

pub fn gen_name(r: &mut Rng) -> String {
    if r.chance(1, 12) {
        return ".".to_string();
    }
    let n = if r.chance(1, 20) { r.range(5, 127) } else { r.range(1, 4) };
    let mut s = String::new();
    for _ in 0..n {
        let l = if n > 20 { (*r.pick(&["a", "b", "0"])).to_string() } else { gen_label(r) };
        if s.len() + l.len() + 1 > 254 {
            break;
        }
        s.push_str(&l);
        s.push('.');
    }
    if r.chance(1, 30) {
        // exactly as long as possible
        while s.len() < 254 {
            let left = 254 - s.len();
            let k = if left > 65 { 63 } else if left == 65 { 62 } else { left - 1 };
            if k == 0 {
                s.pop();
                let last = s.len() - s.rfind('.').map(|i| i + 1).unwrap_or(0);
                if last < 63 {
                    s.push('q');
                }
                s.push('.');
                break;
            }
            s.push_str(&"k".repeat(k));
            s.push('.');
        }
    }
    s
}

pub fn gen_chars(r: &mut Rng) -> String {
    let n = match r.below(12) {
        0 => 0,
        1 => 255,
        2 => r.range(200, 255),
        _ => r.range(0, 8),
    };
    let cs = ['a', ' ', 'Z', '"', '\\', '0', '\u{7f}', '\n', 'é', '\u{1F600}'];
    let mut s = String::new();
    loop {
        let c = if r.chance(1, 6) { *r.pick(&cs) } else { 'x' };
        if s.len() + c.len_utf8() > n {
            if s.len() < n {
                s.push('y');
                continue;
            }
            return s;
        }
        s.push(c);
    }
}

pub fn gen_u32(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 => 0,
        1 => u32::MAX,
        2 => r.next() as u32,
        3 => 1 << r.below(32),
        _ => r.below(100000) as u32,
    }
}

pub fn gen_ip(r: &mut Rng) -> [u8; 4] {
    (r.next() as u32).to_be_bytes()
}

pub fn gen_data(r: &mut Rng, t: u16) -> Data {
    match t {
        1 => Data::A(gen_ip(r)),
        2 => Data::NS(gen_name(r)),
        5 => Data::CNAME(gen_name(r)),
        6 => {
            let v = [gen_u32(r), gen_u32(r), gen_u32(r), gen_u32(r), gen_u32(r)];
            Data::SOA(gen_name(r), gen_name(r), v)
        }
        11 => {
            let n = r.below(8);
            let mut v: Vec<u32> = (0..n)
                .map(|_| match r.below(6) {
                    0 => 65535,
                    1 => 0,
                    2 => r.below(65536) as u32,
                    _ => r.below(100) as u32,
                })
                .collect();
            v.sort();
            v.dedup();
            Data::WKS(gen_ip(r), r.next() as u8, v)
        }
        12 => Data::PTR(gen_name(r)),
        13 => Data::HINFO(gen_chars(r), gen_chars(r)),
        15 => Data::MX(r.next() as u16, gen_name(r)),
        _ => {
            let n = if r.chance(1, 40) { r.range(200, 255) } else { r.range(1, 4) };
            Data::TXT((0..n).map(|_| gen_chars(r)).collect())
        }
    }
}

pub fn gen_rec(r: &mut Rng) -> Rec {
    let t = *r.pick(&SUPPORTED);
    Rec { node: gen_name(r), ttl: gen_u32(r), data: gen_data(r, t) }
}

pub fn gen_quest(r: &mut Rng) -> Quest {
    Quest { node: gen_name(r), rtype: *r.pick(&SUPPORTED) }
}

pub fn gen_head(r: &mut Rng) -> Head {
    let f = r.next();
    Head {
        id: r.next() as u16,
        qr: f & 1 != 0,
        op: 0,
        aa: f & 2 != 0,
        tc: f & 4 != 0,
        rd: f & 8 != 0,
        ra: f & 16 != 0,
        z: (f >> 5) as u8 & 7,
        rcode: (f >> 8) as u8 % 6,
        counts: [0; 4],
    }
}

pub fn gen_msg(r: &mut Rng) -> Msg {
    let max = *r.pick(&[1usize, 2, 3, 6, 12]);
    let mut head = gen_head(r);
    let nq = if r.chance(1, 6) { r.below(max) } else { 1 };
    let qs: Vec<Quest> = (0..nq).map(|_| gen_quest(r)).collect();
    let mut secs = [vec![], vec![], vec![]];
    for s in &mut secs {
        for _ in 0..r.below(max + 1) {
            s.push(gen_rec(r));
        }
    }
    head.counts = [qs.len() as u16, secs[0].len() as u16, secs[1].len() as u16, secs[2].len() as u16];
    Msg { head, qs, secs }
}

/// The wire form of a name with its suffixes found in `seen` replaced by pointers, as any encoder may do.
pub fn enc_compressed(o: &mut Vec<u8>, s: &str, seen: &mut Vec<(Vec<String>, usize)>, r: &mut Rng) {
    let ls = labels_of(s);
    for i in 0..=ls.len() {
        let suffix = ls[i..].to_vec();
        if !r.chance(1, 4) {
            if let Some((_, p)) = seen.iter().find(|(x, p)| *x == suffix && *p < 0x4000) {
                o.push(0xc0 | (p >> 8) as u8);
                o.push(*p as u8);
                return;
            }
        }
        seen.push((suffix, o.len()));
        if i == ls.len() {
            o.push(0);
        } else {
            o.push(ls[i].len() as u8);
            o.extend(ls[i].as_bytes());
        }
    }
}

pub fn enc_msg_compressed(m: &Msg, r: &mut Rng) -> Vec<u8> {
    let mut o = enc_head(&m.head);
    let mut seen = vec![];
    for q in &m.qs {
        enc_compressed(&mut o, &q.node, &mut seen, r);
        o.extend(q.rtype.to_be_bytes());
        o.extend(1u16.to_be_bytes());
    }
    for s in &m.secs {
        for rec in s {
            enc_compressed(&mut o, &rec.node, &mut seen, r);
            o.extend(type_of(&rec.data).to_be_bytes());
            o.extend(1u16.to_be_bytes());
            o.extend(rec.ttl.to_be_bytes());
            let at = o.len();
            o.extend([0, 0]);
            match &rec.data {
                Data::NS(n) | Data::CNAME(n) | Data::PTR(n) => enc_compressed(&mut o, n, &mut seen, r),
                Data::MX(p, n) => {
                    o.extend(p.to_be_bytes());
                    enc_compressed(&mut o, n, &mut seen, r)
                }
                Data::SOA(a, b, v) => {
                    enc_compressed(&mut o, a, &mut seen, r);
                    enc_compressed(&mut o, b, &mut seen, r);
                    for x in v {
                        o.extend(x.to_be_bytes());
                    }
                }
                d => o.extend(enc_data(d)),
            }
            let n = (o.len() - at - 2) as u16;
            o[at..at + 2].copy_from_slice(&n.to_be_bytes());
        }
    }
    o
}

/// Small changes of a message: flipped bits, changed bytes, truncations, insertions, changed counts.
pub fn mutate(b: &mut Vec<u8>, r: &mut Rng) {
    for _ in 0..r.range(1, 3) {
        if b.is_empty() {
            b.push(r.next() as u8);
            continue;
        }
        let n = b.len();
        // the header and the first names are the most interesting part
        let i = if r.chance(1, 3) { r.below(n.min(40)) } else { r.below(n) };
        match r.below(9) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = *r.pick(&[0, 1, 3, 63, 64, 0x80, 0xbf, 0xc0, 0xc1, 0xff, b'.', b'-', b'a', 4, 5, 12, 16]),
            2 => b[i] = r.next() as u8,
            3 => b.truncate(i),
            4 => b.insert(i, r.next() as u8),
            5 => {
                b.remove(i);
            }
            6 => {
                if n >= 12 {
                    let k = 4 + r.below(8);
                    b[k] = r.below(4) as u8;
                }
            }
            7 => {
                // a pointer somewhere
                let t = r.below(n + 3);
                b[i] = 0xc0 | (t >> 8) as u8;
                if i + 1 < n {
                    b[i + 1] = t as u8;
                }
            }
            _ => {
                if i + 1 < n {
                    b[i] = b[i].wrapping_add(1);
                }
            }
        }
    }
}

pub fn in_section<'a>(m: &'a Msg) -> Vec<&'a Rec> {
    m.secs.iter().flat_map(|s| s.iter()).collect()
}
