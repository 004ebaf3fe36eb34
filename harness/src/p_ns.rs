//! The nameserver (C06, C07), the requests both servers refuse (C07) and the sockets (C15).

use crate::ensure;
use crate::model::*;
use crate::p_dns::gen_bytes;
use crate::p_zone::*;
use crate::util::*;
use ariadne_dns::nameserver::NameserverHandler;
use ariadne_dns::resolver::*;
use ariadne_dns::shared::dns;
use ariadne_dns::shared::net::*;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream, UdpSocket};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

type Emit<'a> = &'a mut dyn FnMut(String) -> bool;

// ------------------------------------------------------------------ handlers without sockets

pub struct MemRead(pub Vec<u8>);

impl DnsRead for MemRead {
    fn read(self) -> DnsReadResult {
        let err = match dns::Message::decode_from_bytes(&self.0) {
            Ok(m) => return DnsReadResult::FullMessage(m),
            Err(e) => e,
        };
        match dns::Header::decode_from_bytes(&self.0) {
            Ok(h) => DnsReadResult::HeaderOnly(h, err),
            Err(e) => DnsReadResult::ParseErr(err, e),
        }
    }
}

pub struct MemWrite(pub Arc<Mutex<Vec<dns::Message>>>);

impl DnsWrite for MemWrite {
    fn reply(self, response: dns::Message) -> std::io::Result<()> {
        self.0.lock().unwrap().push(response);
        Ok(())
    }
}

pub fn ask<H: DnsHandler>(h: &H, b: &[u8]) -> Vec<dns::Message> {
    let out = Arc::new(Mutex::new(vec![]));
    h.handle_request(MemRead(b.to_vec()), MemWrite(Arc::clone(&out)));
    let v = std::mem::take(&mut *out.lock().unwrap());
    v
}

fn is_query(m: &Msg) -> bool {
    !m.head.qr && m.qs.len() == 1 && m.head.counts[1] == 0 && m.head.counts[2] == 0
}

fn sorted(v: &[Rec]) -> Vec<String> {
    let mut v: Vec<String> = v.iter().map(|r| format!("{:?}", r)).collect();
    v.sort();
    v
}

fn same(a: &[Rec], b: &[Rec]) -> bool {
    sorted(a) == sorted(b)
}

fn same_set(a: &[Rec], b: &[Rec]) -> bool {
    let (mut a, mut b) = (sorted(a), sorted(b));
    a.dedup();
    b.dedup();
    a == b
}

fn counted(m: &Msg) -> bool {
    m.head.counts == [m.qs.len() as u16, m.secs[0].len() as u16, m.secs[1].len() as u16, m.secs[2].len() as u16]
}

pub fn check_c06(case: &str) -> Res {
    let (zs, qs) = case.split_once(" Q ").ok_or("no queries")?;
    let z = dec_zones(zs);
    let (l, g) = match (load_model(&z), load_real(&z)) {
        (Ok(l), Ok(g)) => (l, g),
        _ => return Ok(false),
    };
    let h = NameserverHandler(g);
    let mut weight = false;
    for q in qs.split_whitespace() {
        let b = unhex(q);
        let m = match dec_msg(&b) {
            Ok(m) if is_query(&m) => m,
            _ => continue,
        };
        let out = ask(&h, &b);
        ensure!(out.len() == 1, "{} replies for {:?}", out.len(), m.qs);
        weight |= answered(&z, &l, &m, &model_msg(&out[0])?)?;
    }
    Ok(weight)
}

/// The reply is the one the zones hold for the query.
pub fn answered(z: &Zones, l: &Loaded, m: &Msg, r: &Msg) -> Res {
    let (node, t) = (&m.qs[0].node, m.qs[0].rtype);
    ensure!(r.qs == m.qs, "question {:?} repeated as {:?}", m.qs, r.qs);
    ensure!(counted(r), "counts {:?} of {:?}", r.head.counts, r);
    if !in_zone(node, &z.zone) {
        ensure!(r.head.rcode == 5, "{} is outside the zone: {:?}", node, r);
        ensure!(r.secs.iter().all(|s| s.is_empty()), "records for {}: {:?}", node, r);
        return Ok(false);
    }
    let subs: Vec<&(String, Vec<Rec>)> = l.subs.iter().filter(|s| in_zone(node, &s.0)).collect();
    if !subs.is_empty() {
        ensure!(r.head.rcode == 0 && !r.head.aa, "referral for {}: {:?}", node, r.head);
        ensure!(r.secs[0].is_empty(), "answers in a referral for {}: {:?}", node, r);
        let fits = subs.iter().any(|s| {
            let ns: Vec<Rec> = s.1.iter().filter(|x| type_of(&x.data) == 2).cloned().collect();
            let mut glue = vec![];
            for n in &ns {
                if let Data::NS(n) = &n.data {
                    for (sz, v) in &l.subs {
                        if in_zone(n, sz) {
                            glue.extend(v.iter().filter(|x| x.node == *n && type_of(&x.data) == 1).cloned());
                        }
                    }
                }
            }
            same(&r.secs[1], &ns) && same_set(&r.secs[2], &glue)
        });
        ensure!(fits, "referral for {}: {:?}, sub zones {:?}", node, r.secs, l.subs);
        return Ok(true);
    }
    let of = |t: u16| -> Vec<Rec> { l.auth.iter().filter(|x| x.node == *node && type_of(&x.data) == t).cloned().collect() };
    ensure!(r.head.aa, "not authoritative for {}: {:?}", node, r.head);
    ensure!(r.secs[2].is_empty(), "additional records for {}: {:?}", node, r);
    let want = if of(t).is_empty() { of(5) } else { of(t) };
    if want.is_empty() {
        let soa: Vec<Rec> = l.auth.iter().filter(|x| type_of(&x.data) == 6).cloned().collect();
        ensure!(r.head.rcode == 3, "nothing for {} type {}: {:?}", node, t, r);
        ensure!(r.secs[0].is_empty() && same(&r.secs[1], &soa), "denial of {} type {}: {:?}", node, t, r);
    } else {
        ensure!(r.head.rcode == 0 && r.secs[1].is_empty(), "{} type {}: {:?}", node, t, r);
        ensure!(same(&r.secs[0], &want), "{} type {}: {:?} instead of {:?}", node, t, r.secs[0], want);
    }
    Ok(true)
}

/// The sections, without an order.
pub fn short_of(m: &Msg) -> Vec<Vec<String>> {
    m.secs.iter().map(|s| sorted(s)).collect()
}

fn near(r: &mut Rng, z: &Zones, l: &Loaded) -> String {
    let mut pool = vec![z.zone.clone()];
    for s in &l.subs {
        pool.push(s.0.clone());
    }
    for x in l.auth.iter().chain(l.subs.iter().flat_map(|s| s.1.iter())) {
        pool.push(x.node.clone());
        match &x.data {
            Data::NS(n) | Data::CNAME(n) | Data::MX(_, n) | Data::PTR(n) => pool.push(n.clone()),
            _ => {}
        }
    }
    let n = r.pick(&pool).clone();
    let m = match r.below(8) {
        0 => format!("x.{}", n),
        1 => format!("x{}", n),
        2 => match n.find('.') {
            Some(i) if i + 1 < n.len() => n[i + 1..].to_string(),
            _ => ".".to_string(),
        },
        3 => (*r.pick(&["example.net.", ".", "com.", "notexample.com."])).to_string(),
        _ => n.clone(),
    };
    let m = m.replace("x..", "x.");
    if valid_name(&m) {
        m
    } else {
        n
    }
}

fn query(r: &mut Rng, node: &str, t: u16) -> Msg {
    let mut head = gen_head(r);
    head.qr = false;
    head.counts = [1, 0, 0, 0];
    head.op = *r.pick(&[0u8, 0, 0, 1, 2]);
    let mut m = Msg { head, qs: vec![Quest { node: node.to_string(), rtype: t }], secs: [vec![], vec![], vec![]] };
    if r.chance(1, 10) {
        m.secs[2].push(gen_rec(r));
        m.head.counts[3] = 1;
    }
    m
}

pub fn queries(r: &mut Rng, z: &Zones, l: &Loaded, k: usize) -> String {
    let mut s = String::new();
    for _ in 0..k {
        let n = near(r, z, l);
        let at: Vec<u16> = l.auth.iter().filter(|x| x.node == n).map(|x| type_of(&x.data)).collect();
        let t = if !at.is_empty() && r.chance(1, 2) { *r.pick(&at) } else { *r.pick(&[1u16, 2, 5, 6, 11, 12, 13, 15, 16]) };
        s.push_str(&hex(&enc_msg(&query(r, &n, t))));
        s.push(' ');
    }
    s
}

pub fn gen_c06(r: &mut Rng, part: usize, _parts: usize, emit: Emit) {
    // record sets around the sizes at which counts are cut
    if part == 0 {
        for n in [254, 255, 256, 257, 300, 1000] {
            let mut t = "@ 60 IN SOA ns mail 1 2 3 4 5\n@ NS ns.other.\n".to_string();
            for i in 0..n {
                t += &format!("a A 1.2.{}.{}\n@ NS n{}.other.\n", i / 256, i % 256, i);
            }
            let subs = if n == 300 { vec![("sub.example.".to_string(), 60, 5, "sub".to_string())] } else { vec![] };
            let sub = (0..n).map(|i| format!("@ NS n{}\nn{} A 1.2.{}.{}\n", i, i, i / 256, i % 256)).collect::<String>();
            let z = Zones { zone: "example.".into(), ttl: 60, subs, files: vec![("main".into(), t), ("sub".into(), sub)] };
            let s = enc_zones(&z) + " Q " + &hex(&enc_msg(&query(r, "a.example.", 1))) + " " + &hex(&enc_msg(&query(r, "example.", 2))) + " " + &hex(&enc_msg(&query(r, "x.sub.example.", 1)));
            if !emit(s) {
                return;
            }
        }
    }
    loop {
        let z = gen_zones(r);
        let l = match load_model(&z) {
            Ok(l) => l,
            Err(_) => continue,
        };
        let s = enc_zones(&z) + " Q " + &queries(r, &z, &l, 12);
        if !emit(s) {
            return;
        }
    }
}

// ------------------------------------------------------------------ C07

const ZONE: &str = "\
@ IN 60 SOA ns mail 1 2 3 4 5
@ NS ns
ns A 1.2.3.4
www A 1.2.3.5
www A 1.2.3.6
t TXT a b c
al CNAME www
";

const SUB: &str = "@ NS ns\nns A 1.2.3.9\n";

fn example() -> NameserverHandler {
    let z = Zones {
        zone: "example.com.".into(),
        ttl: 60,
        subs: vec![("sub.example.com.".into(), 60, 5, "sub".into())],
        files: vec![("main".into(), ZONE.into()), ("sub".into(), SUB.into())],
    };
    NameserverHandler(load_real(&z).unwrap())
}

/// Record sets with as many records as given.
fn large(n: usize) -> (NameserverHandler, ResolverHandler) {
    let mut t = "@ 60 IN SOA ns mail 1 2 3 4 5\n@ NS ns\nns A 1.2.3.4\n".to_string();
    let mut sub = String::new();
    for i in 0..n {
        t += &format!("www A 1.{}.{}.{}\n", i >> 16, i >> 8 & 255, i & 255);
        sub += &format!("@ NS n{}.other.\n", i);
    }
    let glue = (0..n / 255).map(|i| format!("@ NS n\nn A 1.2.{}.{}\n", i >> 8, i & 255)).collect::<String>();
    let z = Zones {
        zone: "example.com.".into(),
        ttl: 60,
        subs: vec![("sub.example.com.".into(), 60, 5, "sub".into()), ("glue.example.com.".into(), 60, 5, "glue".into())],
        files: vec![("main".into(), t), ("sub".into(), sub), ("glue".into(), glue)],
    };
    let rec = |i: usize| Rec { node: "www.example.com.".to_string(), ttl: 600000, data: Data::A([1, (i >> 16) as u8, (i >> 8) as u8, i as u8]) };
    (NameserverHandler(load_real(&z).unwrap()), offline((0..n).map(rec).collect()))
}

/// A resolver which has some records and does not query.
fn offline(www: Vec<Rec>) -> ResolverHandler {
    let cache: Arc<RecordsCache> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(600), max_cleaned: 10 }));
    let week = Duration::from_secs(600000);
    let rec = |n: &str, data: Data| Rec { node: n.to_string(), ttl: 600000, data };
    let mut put = |n: &str, t: u16, v: Vec<Rec>| {
        cache.set((name(n), real_type(t)), week, v.iter().map(real_rec).collect());
    };
    put("www.example.com.", 1, www);
    put("t.example.com.", 16, vec![rec("t.example.com.", Data::TXT(vec!["a".into(), "b".into()]))]);
    put("al.example.com.", 5, vec![rec("al.example.com.", Data::CNAME("www.example.com.".into()))]);
    put(".", 2, vec![rec(".", Data::NS("ns.test.".into()))]);
    put("ns.test.", 1, vec![rec("ns.test.", Data::A([127, 0, 0, 2]))]);
    let p = ResolverParams {
        max_ns_queried: 1,
        max_upd_retries: 1,
        max_cname_redir: 3,
        read_timeout: Duration::from_millis(1),
        write_timeout: Duration::from_millis(1),
        no_follow_cname: false,
    };
    ResolverHandler(Resolver::new(&cache, p, TraceParams { silent: false, verbose: true, color: true }))
}

fn replies<H: DnsHandler>(who: &str, h: &H, b: &[u8], codes: &[u8]) -> Result<bool, String> {
    let out = ask(h, b);
    let head = match dec_head(b) {
        Ok(h) => h,
        Err(_) => {
            ensure!(out.is_empty(), "{}: a reply without a header to reply to", who);
            return Ok(false);
        }
    };
    ensure!(out.len() == 1, "{}: {} replies", who, out.len());
    let r = model_msg(&out[0])?;
    let want: Vec<u8> = match dec_msg(b) {
        Err(Bad::Unsupported) => vec![4],
        Err(Bad::Malformed) => vec![1],
        Ok(m) if !is_query(&m) => vec![1],
        Ok(_) => codes.to_vec(),
    };
    ensure!(want.contains(&r.head.rcode), "{}: reply code {} instead of {:?}", who, r.head.rcode, want);
    ensure!(r.head.id == head.id && r.head.op == head.op && r.head.rd == head.rd, "{}: header {:?} for {:?}", who, r.head, head);
    ensure!(r.head.qr && r.head.z == 0 && !r.head.tc, "{}: header {:?}", who, r.head);
    ensure!(counted(&r), "{}: counts of {:?}", who, r);
    let e = out[0].encode_to_bytes().map_err(|e| format!("{}: cannot be encoded: {:?}", who, e))?;
    // an operation code which is not supported is repeated, and refused by the decoder
    let (mut e, mut r) = (e, r);
    if r.head.op != 0 {
        e[2] &= !0x78;
        r.head.op = 0;
    }
    let d = dec_msg(&e).map_err(|x| format!("{}: the reply {} does not decode: {:?}", who, hex(&e), x))?;
    ensure!(d == r, "{}: the reply {:?} is read as {:?}", who, r, d);
    Ok(true)
}

thread_local! {
    static NS: NameserverHandler = example();
    static RS: ResolverHandler = offline([4, 5].map(|i| Rec { node: "www.example.com.".into(), ttl: 600000, data: Data::A([1, 2, 3, i]) }).to_vec());
}

pub fn check_c07(case: &str) -> Res {
    if let Some(n) = case.strip_prefix("large ") {
        let n: usize = n.parse().map_err(|_| "no number")?;
        let (ns, rs) = large(n);
        for q in ["www.example.com.", "x.sub.example.com.", "x.glue.example.com."] {
            let head = Head { id: 7, qr: false, op: 0, aa: false, tc: false, rd: false, ra: false, z: 0, rcode: 0, counts: [1, 0, 0, 0] };
            let b = enc_msg(&Msg { head, qs: vec![Quest { node: q.to_string(), rtype: 1 }], secs: [vec![], vec![], vec![]] });
            replies("nameserver", &ns, &b, &[0])?;
            if q.starts_with('w') {
                replies("resolver", &rs, &b, &[0])?;
            }
        }
        return Ok(true);
    }
    let b = unhex(case);
    let x = NS.with(|h| replies("nameserver", h, &b, &[0, 3, 5]))?;
    let y = RS.with(|h| replies("resolver", h, &b, &[0, 2, 3]))?;
    Ok(x && y)
}

pub fn gen_c07(r: &mut Rng, part: usize, _parts: usize, emit: Emit) {
    // more records than a section can count
    if part < 2 && !emit(format!("large {}", [65537, 300][part])) {
        return;
    }
    let known = ["example.com.", "www.example.com.", "t.example.com.", "al.example.com.", "sub.example.com.", "x.sub.example.com.", "no.example.com.", "example.net.", "ns.test.", "."];
    loop {
        let n = if r.chance(3, 4) { (*r.pick(&known)).to_string() } else { gen_name(r) };
        let t = *r.pick(&[1u16, 1, 2, 5, 6, 12, 13, 15, 16]);
        let mut m = query(r, &n, t);
        m.head.rcode = r.below(6) as u8;
        let mut b;
        match r.below(12) {
            0..=2 => b = enc_msg(&m),
            3 => {
                // more questions, or none
                for _ in 0..r.below(3) {
                    m.qs.push(gen_quest(r));
                }
                if r.chance(1, 3) {
                    m.qs.clear();
                }
                m.head.counts[0] = m.qs.len() as u16;
                b = enc_msg(&m);
            }
            4 => {
                let i = r.below(3);
                m.secs[i].push(gen_rec(r));
                m.head.counts[i + 1] = m.secs[i].len() as u16;
                b = enc_msg(&m);
            }
            5 => {
                m.head.qr = true;
                b = enc_msg(&m);
            }
            6 => {
                // counts which are not those of the records
                let i = r.below(4);
                m.head.counts[i] = *r.pick(&[0u16, 1, 2, 65535]);
                b = enc_msg(&m);
            }
            7 => {
                // question types and classes
                b = enc_msg(&m);
                let k = 12 + wire_name(&n).len();
                let j = k + r.below(4);
                if j < b.len() {
                    b[j] = r.next() as u8;
                }
            }
            8 => {
                b = enc_msg(&m);
                b.truncate(*r.pick(&[0usize, 1, 2, 3, 11, 12, 13, 14]));
            }
            9 => {
                b = enc_msg(&m);
                let k = r.range(2, 3);
                b[k] = r.next() as u8;
            }
            10 => {
                b = enc_msg(&m);
                mutate(&mut b, r);
            }
            _ => b = gen_bytes(r),
        }
        if !emit(hex(&b)) {
            return;
        }
    }
}

// ------------------------------------------------------------------ C15

struct Echo;

/// What the handler read, by the number in the first two bytes, and what it is to reply.
static READ: Mutex<Vec<String>> = Mutex::new(Vec::new());
static REPLY: OnceLock<Mutex<HashMap<u16, Msg>>> = OnceLock::new();

impl DnsHandler for Echo {
    fn handle_request<R: DnsRead, W: DnsWrite>(&self, req: R, resp: W) {
        let (what, id) = match req.read() {
            DnsReadResult::FullMessage(m) => (format!("{:?}", model_msg(&m)), Some(m.id())),
            DnsReadResult::HeaderOnly(h, e) => (format!("{:?} {:?}", model_head(&h), bad_of(&e.inner_err())), Some(h.id)),
            DnsReadResult::ParseErr(..) => ("unreadable".to_string(), None),
            DnsReadResult::IoErr(_) => ("io".to_string(), None),
        };
        READ.lock().unwrap().push(what);
        if let Some(id) = id {
            let m = REPLY.get_or_init(Default::default).lock().unwrap().get(&id).map(real_msg);
            if let Some(m) = m {
                let _ = resp.reply(m);
            }
        }
    }
}

fn expected_read(b: &[u8]) -> String {
    match (dec_msg(b), dec_head(b)) {
        (Ok(m), _) => format!("{:?}", Ok::<Msg, String>(m)),
        (Err(e), Ok(h)) => format!("{:?} {:?}", h, e),
        _ => "unreadable".to_string(),
    }
}

/// The ports of the running servers, UDP and TCP.
fn servers() -> (u16, u16) {
    static PORTS: OnceLock<(u16, u16)> = OnceLock::new();
    *PORTS.get_or_init(|| {
        for _ in 0..8 {
            let (u, t) = {
                let u = UdpSocket::bind("127.0.0.1:0").unwrap();
                let t = TcpListener::bind("127.0.0.1:0").unwrap();
                (u.local_addr().unwrap().port(), t.local_addr().unwrap().port())
            };
            std::thread::spawn(move || {
                let s = Duration::from_secs(3);
                start_servers(
                    Arc::new(Echo),
                    UdpParams { address: "127.0.0.1".into(), port: u, write_timeout: s, threads: 3 },
                    TcpParams { address: "127.0.0.1".into(), port: t, write_timeout: s, read_timeout: s, threads: 3 },
                );
            });
            let start = Instant::now();
            while start.elapsed() < Duration::from_secs(2) {
                std::thread::sleep(Duration::from_millis(20));
                // both up: TCP accepts and the UDP port is taken
                if UdpSocket::bind(("127.0.0.1", u)).is_err() && TcpStream::connect(("127.0.0.1", t)).is_ok() {
                    std::thread::sleep(Duration::from_millis(50));
                    READ.lock().unwrap().clear();
                    return (u, t);
                }
            }
        }
        panic!("servers did not start")
    })
}

fn reply_of(id: u16, seed: u64, size: usize) -> Msg {
    let mut r = Rng::new(seed);
    let mut m = gen_msg(&mut r);
    m.head.id = id;
    m.head.qr = true;
    m.head.tc = false;
    while enc_msg(&m).len() > size.max(100) && !(m.secs[0].is_empty() && m.secs[1].is_empty() && m.secs[2].is_empty()) {
        for s in &mut m.secs {
            s.pop();
        }
    }
    let mut len = enc_msg(&m).len();
    let mut add = |k: usize| m.secs[2].push(Rec { node: ".".into(), ttl: 1, data: Data::TXT(vec!["r".repeat(k)]) });
    while size > len && size - len >= 12 {
        let k = (size - len - 12).min(255);
        let k = if size - len - 12 - k > 0 && size - len - 12 - k < 12 { k - 20 } else { k };
        add(k);
        len += 12 + k;
    }
    m.head.counts = [m.qs.len() as u16, m.secs[0].len() as u16, m.secs[1].len() as u16, m.secs[2].len() as u16];
    m
}

struct Client {
    tcp: bool,
    bytes: Vec<u8>,
    cuts: Vec<usize>,
    keep: usize,
    seed: u64,
    size: usize,
}

fn dec_clients(case: &str) -> Vec<Client> {
    let w: Vec<&str> = case.split_whitespace().collect();
    w.chunks(6)
        .enumerate()
        .map(|(i, c)| {
            let mut bytes = unhex(&c[1][1..]);
            if bytes.len() >= 2 {
                // every request has a number of its own
                bytes[1] = i as u8;
            }
            Client {
                tcp: c[0] == "T",
                bytes,
                cuts: c[2].split(',').filter_map(|x| x.parse().ok()).collect(),
                keep: c[3].parse().unwrap(),
                seed: c[4].parse().unwrap(),
                size: c[5].parse().unwrap(),
            }
        })
        .collect()
}

fn run_tcp(c: &Client, port: u16, want: &Option<Vec<u8>>) -> Result<(), String> {
    let mut s = TcpStream::connect(("127.0.0.1", port)).map_err(|e| format!("connect: {}", e))?;
    s.set_nodelay(true).unwrap();
    s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    let mut stream = vec![(c.bytes.len() >> 8) as u8, c.bytes.len() as u8];
    stream.extend(&c.bytes);
    let whole = c.keep >= stream.len();
    stream.truncate(c.keep);
    let mut cuts: Vec<usize> = c.cuts.iter().copied().filter(|x| *x < stream.len()).collect();
    cuts.sort();
    cuts.push(stream.len());
    let mut at = 0;
    for k in cuts {
        if s.write_all(&stream[at..k]).is_err() {
            break;
        }
        if k < stream.len() {
            std::thread::sleep(Duration::from_micros(1500));
        }
        at = k;
    }
    let _ = s.shutdown(std::net::Shutdown::Write);
    let mut got = vec![];
    s.read_to_end(&mut got).map_err(|e| format!("tcp: no end of the reply: {} after {} bytes", e, got.len()))?;
    match want {
        Some(b) if whole && b.len() <= 65535 => {
            ensure!(got.len() >= 2, "tcp: reply of {} bytes instead of {}", got.len(), b.len() + 2);
            let n = (got[0] as usize) << 8 | got[1] as usize;
            ensure!(n == b.len(), "tcp: length {} of a message of {} bytes", n, b.len());
            ensure!(got[2..] == b[..], "tcp: {} bytes after the length, not the {} of the message", got.len() - 2, b.len());
        }
        _ => ensure!(got.is_empty(), "tcp: reply of {} bytes where none is due", got.len()),
    }
    Ok(())
}

fn run_udp(c: &Client, port: u16, want: &Option<Vec<u8>>) -> Result<(), String> {
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.send_to(&c.bytes, ("127.0.0.1", port)).map_err(|e| format!("udp: {}", e))?;
    let mut buf = vec![0; 70000];
    if let Some(b) = want {
        s.set_read_timeout(Some(Duration::from_secs(4))).unwrap();
        let (n, from) = s.recv_from(&mut buf).map_err(|e| format!("udp: no reply: {}", e))?;
        ensure!(from.port() == port, "udp: reply from port {}", from.port());
        ensure!(n <= 512, "udp: datagram of {} bytes", n);
        ensure!(buf[..n] == b[..], "udp: datagram {} instead of {}", hex(&buf[..n]), hex(b));
    }
    s.set_read_timeout(Some(Duration::from_millis(4))).unwrap();
    match s.recv_from(&mut buf) {
        Ok((n, _)) => Err(format!("udp: a datagram of {} bytes which is not due", n)),
        Err(_) => Ok(()),
    }
}

struct Plain;

impl DnsHandler for Plain {
    fn handle_request<R: DnsRead, W: DnsWrite>(&self, req: R, resp: W) {
        if let DnsReadResult::FullMessage(m) = req.read() {
            let _ = resp.reply(m);
        }
    }
}

/// hx serve UDP TCP THREADS READ WRITE: servers which give the request back, with these timeouts in ms.
pub fn serve(u: u16, t: u16, threads: usize, read: u64, write: u64) {
    let (r, w) = (Duration::from_millis(read), Duration::from_millis(write));
    start_servers(
        Arc::new(Plain),
        UdpParams { address: "127.0.0.1".into(), port: u, write_timeout: w, threads },
        TcpParams { address: "127.0.0.1".into(), port: t, write_timeout: w, read_timeout: r, threads },
    );
}

/// One query over TCP, given back by a server of `serve`, its second half sent after a while.
fn asked(t: u16, wait: u64, slow: u64) -> Result<(), String> {
    let q = [0u8, 23, 9, 9, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 4, b'a', b'b', b'c', b'd', 0, 0, 1, 0, 1];
    let mut s = TcpStream::connect(("127.0.0.1", t)).map_err(|e| format!("connect: {}", e))?;
    s.set_read_timeout(Some(Duration::from_millis(wait))).unwrap();
    let q = [&[0u8, 22][..], &q[2..]].concat();
    if slow > 0 {
        s.write_all(&q[..9]).map_err(|e| format!("write: {}", e))?;
        std::thread::sleep(Duration::from_millis(slow));
    }
    s.write_all(if slow > 0 { &q[9..] } else { &q }).map_err(|e| format!("write: {}", e))?;
    let mut got = vec![];
    s.read_to_end(&mut got).map_err(|e| format!("read: {}", e))?;
    ensure!(got == q, "got {} bytes back instead of {}", got.len(), q.len());
    Ok(())
}

struct Child(std::process::Child);
impl Drop for Child {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
/// A process which runs the servers, and its TCP port, if it is up.
fn server_process(threads: usize, limit: usize, read: u64, write: u64) -> Option<(Child, u16)> {
    let (u, t) = {
        let u = UdpSocket::bind("127.0.0.1:0").unwrap();
        let t = TcpListener::bind("127.0.0.1:0").unwrap();
        (u.local_addr().unwrap().port(), t.local_addr().unwrap().port())
    };
    let me = std::env::current_exe().unwrap();
    let child = std::process::Command::new("sh")
        .arg("-c")
        .arg(format!("ulimit -n {}; exec \"$0\" serve {} {} {} {} {} 9>&- 8>&- 7>&-", limit, u, t, threads, read, write))
        .arg(&me)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn();
    let child = Child(child.ok()?);
    let start = Instant::now();
    while asked(t, 1500, 0).is_err() {
        if start.elapsed() > Duration::from_secs(4) {
            // another process took the port, or the machine is too busy
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    Some((child, t))
}

/// Silent clients hold all the threads until their read timeout; a slow one which stays within it is served.
fn check_silent(w: &[&str]) -> Res {
    let n: Vec<u64> = w.iter().map(|x| x.parse().unwrap()).collect();
    let (threads, read, write, kind) = (n[0] as usize, n[1], n[2], n[3]);
    let Some((_child, t)) = server_process(threads, 256, read, write) else { return Ok(false) };
    if kind == 3 {
        let r = asked(t, 4000, read / 3);
        ensure!(r.is_ok(), "a request sent in two parts, {} ms apart, is not served although the read timeout is {} ms: {:?}", read / 3, read, r);
        return Ok(true);
    }
    let _held: Vec<_> = (0..threads)
        .filter_map(|_| {
            let mut s = TcpStream::connect_timeout(&([127, 0, 0, 1], t).into(), Duration::from_millis(300)).ok()?;
            let _ = s.write_all(&[0u8, 22, 9, 9, 1][..[0, 1, 5][kind as usize]]);
            Some(s)
        })
        .collect();
    std::thread::sleep(Duration::from_millis(100));
    let r = asked(t, read + 3000, 0);
    ensure!(r.is_ok(), "no reply within {} ms although the silent clients should be given up after {} ms: {:?}", read + 3000, read, r);
    Ok(true)
}

/// A crowd of idle connections takes all the file descriptors of the server; when they are gone it serves again.
fn check_crowd(w: &[&str]) -> Res {
    let (threads, limit, crowd): (usize, usize, usize) = (w[0].parse().unwrap(), w[1].parse().unwrap(), w[2].parse().unwrap());
    let Some((_child, t)) = server_process(threads, limit, 200, 200) else { return Ok(false) };
    let idle: Vec<_> = (0..crowd)
        .filter_map(|_| TcpStream::connect_timeout(&([127, 0, 0, 1], t).into(), Duration::from_millis(300)).ok())
        .collect();
    std::thread::sleep(Duration::from_millis(700));
    drop(idle);
    let start = Instant::now();
    loop {
        match asked(t, 1500, 0) {
            Ok(()) => return Ok(true),
            Err(e) if start.elapsed() > Duration::from_secs(12) => {
                return Err(format!("no reply to a request after a crowd of idle connections went away: {}", e));
            }
            Err(_) => std::thread::sleep(Duration::from_millis(50)),
        }
    }
}

/// One of the servers cannot be set up: the other one is stopped and start_servers ends.
fn check_ends(udp: bool) -> Res {
    let u = UdpSocket::bind("127.0.0.1:0").unwrap();
    let t = TcpListener::bind("127.0.0.1:0").unwrap();
    let (up, tp) = (u.local_addr().unwrap().port(), t.local_addr().unwrap().port());
    let _taken: (Option<UdpSocket>, Option<TcpListener>) = if udp {
        drop(t);
        (Some(u), None)
    } else {
        drop(u);
        (None, Some(t))
    };
    let h = std::thread::spawn(move || serve(up, tp, 2, 200, 200));
    let start = Instant::now();
    while !h.is_finished() {
        ensure!(start.elapsed() < Duration::from_secs(12), "the servers go on although the {} server ended", if udp { "udp" } else { "tcp" });
        std::thread::sleep(Duration::from_millis(5));
    }
    Ok(true)
}

pub fn check_c15(case: &str) -> Res {
    if let Some(w) = case.strip_prefix("ends ") {
        return check_ends(w == "udp");
    }
    if let Some(w) = case.strip_prefix("silent ") {
        return check_silent(&w.split(' ').collect::<Vec<_>>());
    }
    if let Some(w) = case.strip_prefix("crowd ") {
        return check_crowd(&w.split(' ').collect::<Vec<_>>());
    }
    let cs = dec_clients(case);
    let (u, t) = servers();
    READ.lock().unwrap().clear();
    let mut wants = vec![];
    let mut reads = vec![];
    {
        let mut m = REPLY.get_or_init(Default::default).lock().unwrap();
        m.clear();
        for c in &cs {
            let b: &[u8] = if c.tcp { &c.bytes } else { &c.bytes[..c.bytes.len().min(512)] };
            reads.push(if c.tcp && c.keep < c.bytes.len() + 2 { "io".to_string() } else { expected_read(b) });
            let id = if b.len() >= 2 { (b[0] as u16) << 8 | b[1] as u16 } else { 0 };
            let r = reply_of(id, c.seed, c.size);
            let e = enc_msg(&r);
            let e = if c.tcp {
                Some(e)
            } else {
                // what the truncating encoder makes of it is stated by C04
                Some(real_msg(&r).encode_to_bytes_trunc().map_err(|e| format!("encoding: {:?}", e))?)
            };
            // what has no header has no id either
            wants.push(match dec_head(b) {
                Ok(_) => {
                    // two requests with one id cannot be told apart
                    if m.insert(id, r).is_some() {
                        return Ok(false);
                    }
                    e
                }
                Err(_) => None,
            });
        }
    }
    let out: Vec<Result<(), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = cs
            .iter()
            .zip(&wants)
            .map(|(c, w)| s.spawn(move || if c.tcp { run_tcp(c, t, w) } else { run_udp(c, u, w) }))
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for o in out {
        o?;
    }
    let start = Instant::now();
    while READ.lock().unwrap().len() < cs.len() && start.elapsed() < Duration::from_secs(3) {
        std::thread::sleep(Duration::from_millis(1));
    }
    let mut got = READ.lock().unwrap().clone();
    got.sort();
    reads.sort();
    ensure!(got == reads, "requests read as {:?} instead of {:?}", got, reads);
    Ok(true)
}

pub fn gen_c15(r: &mut Rng, part: usize, _parts: usize, emit: Emit) {
    let mut n = 0usize;
    loop {
        n += 1;
        if n == 3 && part < 2 && !emit(format!("ends {}", if part == 0 { "udp" } else { "tcp" })) {
            return;
        }
        if n % 300 == 4 && part >= 2 {
            let kind = r.below(4);
            let (read, write) = if kind == 3 { (2400, 50) } else { (r.range(50, 400), *r.pick(&[10, 400, 20000])) };
            if !emit(format!("silent {} {} {} {}", r.range(1, 3), read, write, kind)) {
                return;
            }
        }
        if n % 400 == 5 && part % 4 == 0 && !emit(format!("crowd {} {} {}", r.range(1, 3), r.range(16, 24), r.range(10, 40))) {
            return;
        }
        let mut s = String::new();
        for _ in 0..*r.pick(&[1usize, 1, 2, 4]) {
            let tcp = r.chance(1, 2);
            let mut b = match r.below(6) {
                0 => gen_bytes(r),
                1 => {
                    let mut b = enc_msg(&gen_msg(r));
                    mutate(&mut b, r);
                    b
                }
                _ => enc_msg(&gen_msg(r)),
            };
            if b.len() > 60000 {
                b.truncate(60000);
            }
            if tcp && r.chance(1, 4) {
                // long requests, whose length takes both bytes
                let k = *r.pick(&[255usize, 256, 257, 511, 512, 513, 4000, 40000, 65535]);
                b.resize(k.max(b.len()), 0);
            }
            let mut cuts = vec![];
            for _ in 0..*r.pick(&[0usize, 1, 1, 2, 4]) {
                let k = b.len() + 2;
                cuts.push(if r.chance(1, 2) { r.below(4) } else { r.below(k) }.to_string());
            }
            let keep = if r.chance(1, 8) { r.below(b.len() + 2) } else { 100000 };
            let size = *r.pick(&[0usize, 0, 255, 256, 300, 500, 511, 512, 513, 514, 530, 700, 2000, 30000, 65280, 65534, 65535, 65536, 65537, 66000, 70000]);
            let size = if !tcp { size.min(3000) } else { size };
            let cuts = if cuts.is_empty() { "-".to_string() } else { cuts.join(",") };
            s.push_str(&format!("{} x{} {} {} {} {} ", if tcp { "T" } else { "U" }, hex(&b), cuts, keep, r.next() % 100000, size));
        }
        if !emit(s.trim_end().to_string()) {
            return;
        }
    }
}
