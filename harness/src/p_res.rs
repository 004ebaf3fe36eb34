//! The resolver (C11, C12, C13, C14) against upstream servers on loopback addresses.
//! A case is "MODE SEED LOOKUPS WAITS": the world made from the seed (h: servers which answer rightly, some of them not
//! always; x: servers which answer anything) and the number of lookups made in it, with pauses between them.

use crate::model::*;
use crate::util::*;
use ariadne_dns::resolver::*;
use std::net::UdpSocket;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

type Emit<'a> = &'a mut dyn FnMut(String) -> bool;

const SERVERS: usize = 20;
/// The zone everything is in: the lookups start from its nameserver, which the cache knows.
const TOP: &str = "t.";
const ROOT_HOST: &str = "k.t.";

// ------------------------------------------------------------------ servers

struct Pool {
    base: u8,
    world: Arc<Mutex<Option<World>>>,
}

fn ip(base: u8, i: usize) -> [u8; 4] {
    [127, base, 77, i as u8 + 1]
}

fn sockets(base: u8) -> std::io::Result<Vec<UdpSocket>> {
    (0..SERVERS).map(|i| UdpSocket::bind((std::net::Ipv4Addr::from(ip(base, i)), 53))).collect()
}

/// The servers of this process. Without the right to use port 53 the process starts again in a network of its own.
fn pool() -> &'static Pool {
    static POOL: OnceLock<Pool> = OnceLock::new();
    POOL.get_or_init(|| {
        let start = (std::process::id() % 120) as u8;
        for k in 0..120u8 {
            let base = 100 + (start + k) % 120;
            match sockets(base) {
                Ok(v) => {
                    let world: Arc<Mutex<Option<World>>> = Arc::new(Mutex::new(None));
                    for (i, s) in v.into_iter().enumerate() {
                        let w = Arc::clone(&world);
                        std::thread::spawn(move || serve(i, s, w));
                    }
                    return Pool { base, world };
                }
                Err(e) if e.kind() == std::io::ErrorKind::AddrInUse => {}
                Err(e) => {
                    if std::env::var("HX_NET").is_ok() {
                        panic!("harness: no port 53: {:?}", e);
                    }
                    use std::os::unix::process::CommandExt;
                    let exe = std::env::current_exe().unwrap();
                    let e = std::process::Command::new("unshare")
                        .args(["-Urn", "sh", "-c", "ip link set lo up && exec \"$0\" \"$@\""])
                        .arg(exe)
                        .args(std::env::args().skip(1))
                        .env("HX_NET", "1")
                        .exec();
                    panic!("harness: no network of its own: {:?}", e);
                }
            }
        }
        panic!("harness: no free addresses");
    })
}

fn serve(i: usize, s: UdpSocket, w: Arc<Mutex<Option<World>>>) {
    let mut b = [0u8; 2048];
    loop {
        if let Ok((n, from)) = s.recv_from(&mut b) {
            let mut g = w.lock().unwrap_or_else(|e| e.into_inner());
            if let Some(world) = g.as_mut() {
                for d in world.asked(i, &b[..n]) {
                    let _ = s.send_to(&d, from);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ the world

/// A zone: its nameservers and the records it holds.
#[derive(Clone, Debug)]
struct Area {
    name: String,
    hosts: Vec<String>,
    recs: Vec<Rec>,
}

/// Records told by a response which may be believed.
#[derive(Clone, Debug)]
struct Told {
    lookup: usize,
    /// When it was sent, and when it had been taken in at the latest.
    t0: Instant,
    t1: Option<Instant>,
    node: String,
    rtype: u16,
    recs: Vec<Rec>,
    whole: bool,
}

#[derive(Clone, Debug)]
struct Sent {
    server: usize,
    q: Quest,
    /// Did it fit the query, and was it not a failure?
    good: bool,
    msg: Option<Msg>,
    what: String,
}

struct World {
    base: u8,
    honest: bool,
    rng: Rng,
    areas: Vec<Area>,
    /// Server number to host name.
    hosts: Vec<String>,
    dead: Vec<bool>,
    retries: usize,
    silences: usize,
    faults: bool,
    /// How many times a server was asked a question, and the failures it starts with.
    tries: Vec<(usize, Quest, usize, usize)>,
    pool: Vec<String>,
    cap: usize,
    lookup: usize,
    from: usize,
    queries: usize,
    log: Vec<Sent>,
    told: Vec<Told>,
    /// What lookups which ended well took from responses: names and types of records, and zones.
    kept: Vec<(String, u16)>,
    known: Vec<String>,
    wrong: Vec<(&'static str, String)>,
}

fn soa(z: &str) -> Rec {
    let n = if z == "." { "m.".to_string() } else { format!("m.{}", z) };
    Rec { node: z.to_string(), ttl: 3600, data: Data::SOA(n.clone(), n, [1, 2, 3, 4, 5]) }
}

fn child(label: &str, z: &str) -> String {
    if z == "." {
        format!("{}.", label)
    } else {
        format!("{}.{}", label, z)
    }
}

impl World {
    fn addr(&self, host: &str) -> Option<[u8; 4]> {
        self.hosts.iter().position(|h| h == host).map(|i| ip(self.base, i))
    }

    fn deepest(&self, n: &str) -> usize {
        let mut best = 0;
        for (i, a) in self.areas.iter().enumerate() {
            if in_zone(n, &a.name) && labels_of(&a.name).len() >= labels_of(&self.areas[best].name).len() {
                best = i;
            }
        }
        best
    }

    /// The records of a name and a type, where they belong.
    fn truth(&self, n: &str, t: u16) -> Vec<Rec> {
        let a = &self.areas[self.deepest(n)];
        a.recs.iter().filter(|r| r.node == n && type_of(&r.data) == t).cloned().collect()
    }

    fn exists(&self, n: &str) -> bool {
        self.areas.iter().any(|a| in_zone(&a.name, n) || a.recs.iter().any(|r| in_zone(&r.node, n)))
    }

    /// The zones for which an address is known to serve.
    fn zones_of(&self, server: usize) -> Vec<String> {
        let a = ip(self.base, server);
        let mut out = vec![];
        for t in &self.told {
            if t.rtype != 2 {
                continue;
            }
            for r in &t.recs {
                if let Data::NS(h) = &r.data {
                    let known = self.told.iter().any(|u| u.rtype == 1 && u.node == *h && u.recs.iter().any(|x| x.data == Data::A(a)));
                    if known && !out.contains(&t.node) {
                        out.push(t.node.clone());
                    }
                }
            }
        }
        out
    }

    /// A lookup ended well: what it took from responses.
    fn learnt(&mut self) {
        let log = self.log[self.from..].to_vec();
        for (i, x) in log.iter().enumerate() {
            let m = match &x.msg {
                Some(m) if x.good && m.head.rcode == 0 => m,
                _ => continue,
            };
            let last = i + 1 == log.len();
            let ans = m.secs[0].iter().any(|r| r.node == x.q.node && type_of(&r.data) == x.q.rtype);
            if ans {
                if last {
                    self.kept.push((x.q.node.clone(), x.q.rtype));
                }
                continue;
            }
            if m.secs[0].iter().any(|r| r.node == x.q.node && type_of(&r.data) == 5) {
                continue;
            }
            let zones = self.zones_of(x.server);
            let cuts: Vec<String> = m.secs[1].iter().filter(|r| type_of(&r.data) == 2).map(|r| r.node.clone()).collect();
            for z in cuts {
                let next = log.get(i + 1).map_or(false, |y| y.q == x.q && self.zones_of(y.server).contains(&z));
                if self.honest && !zones.contains(&z) && next && !self.known.contains(&z) {
                    self.known.push(z);
                }
            }
        }
    }

    fn is_dead(&self, i: usize) -> bool {
        self.dead.get(i).copied().unwrap_or(true)
    }

    fn tell(&mut self, recs: Vec<Rec>, whole: bool) {
        if let Some(r) = recs.first() {
            let (node, rtype) = (r.node.clone(), type_of(&r.data));
            self.told.push(Told { lookup: self.lookup, t0: Instant::now(), t1: None, node, rtype, recs, whole });
        }
    }

    fn taken_in(&mut self) {
        let now = Instant::now();
        for t in self.told.iter_mut() {
            if t.t1.is_none() {
                t.t1 = Some(now);
            }
        }
    }

    /// Must the cache hold records of the name and type?
    fn fresh(&self, n: &str, t: u16) -> bool {
        let now = Instant::now() + Duration::from_millis(100);
        let mut some = false;
        for x in self.told.iter().filter(|x| x.node == n && x.rtype == t) {
            some = true;
            let ttl = x.recs.iter().map(|r| r.ttl).min().unwrap_or(0);
            if x.t0 + Duration::from_secs(ttl as u64) < now {
                return false;
            }
        }
        some
    }

    /// A query which the cache makes needless.
    fn needless(&self, q: &Quest, zones: &[String]) -> Option<String> {
        for t in [q.rtype, 5] {
            if self.kept.contains(&(q.node.clone(), t)) && self.fresh(&q.node, t) {
                return Some(format!("{} {} is asked, the cache has {} {}", q.node, q.rtype, q.node, t));
            }
        }
        if !self.honest || !self.dead.iter().all(|d| !d) {
            return None;
        }
        // the nameservers told with an alias are the ones asked about its target
        let aliased = |x: &Sent| x.msg.as_ref().map_or(false, |m| m.secs[0].iter().any(|r| matches!(&r.data, Data::CNAME(t) if *t == q.node)));
        if self.log[self.from..].iter().any(aliased) {
            return None;
        }
        let depth = zones.iter().filter(|z| in_zone(&q.node, z)).map(|z| labels_of(z).len()).max()?;
        for z in &self.known {
            if in_zone(&q.node, z) && labels_of(z).len() > depth && self.fresh(z, 2) {
                let hosts: Vec<String> = self.told.iter().filter(|x| x.node == *z && x.rtype == 2).flat_map(|x| x.recs.iter())
                    .filter_map(|r| if let Data::NS(h) = &r.data { Some(h.clone()) } else { None }).collect();
                if hosts.iter().all(|h| !in_zone(h, z) || self.fresh(h, 1)) {
                    return Some(format!("{} is asked about {:?}, the cache has the nameservers of {}", zones.join(" "), q, z));
                }
            }
        }
        None
    }

    fn blame(&mut self, p: &'static str, m: String) {
        if self.wrong.len() < 20 {
            self.wrong.push((p, m));
        }
    }

    /// A query came to a server: the datagrams which go back.
    fn asked(&mut self, i: usize, b: &[u8]) -> Vec<Vec<u8>> {
        self.taken_in();
        self.queries += 1;
        let m = match dec_msg(b) {
            Ok(m) => m,
            Err(e) => {
                self.blame("C14", format!("server {} was sent {} which is {:?}", i, hex(b), e));
                return vec![];
            }
        };
        let h = &m.head;
        if m.qs.len() != 1 || h.qr || h.op != 0 || h.tc || h.z != 0 || m.secs.iter().any(|s| !s.is_empty()) {
            self.blame("C14", format!("server {} was sent the query {:?}", i, m));
            return vec![];
        }
        let q = m.qs[0].clone();
        let zones = self.zones_of(i);
        let held: Vec<String> = zones.iter().filter(|z| in_zone(&q.node, z)).cloned().collect();
        if held.is_empty() {
            self.blame("C12", format!("the server {} of the zones {:?} is asked about {:?}", i, zones, q));
        }
        if let Some(x) = self.needless(&q, &zones) {
            self.blame("C11", x);
        }
        let run = self.log[self.from..].iter().rev().take_while(|s| s.server == i && s.q == q).count();
        if self.honest && run >= self.retries {
            self.blame("C14", format!("the server {} is asked {:?} {} times", i, q, run + 1));
        }
        if self.queries > self.cap {
            // from here on every server refuses
            let mut r = reply_to(&m);
            r.head.rcode = 5;
            r.head.aa = false;
            self.log.push(Sent { server: i, q, good: false, msg: None, what: "refused".into() });
            return vec![enc_msg(&counted(r))];
        }
        let k = match self.tries.iter().position(|t| t.0 == i && t.1 == q) {
            Some(k) => k,
            None => {
                let bad = if self.faults && self.rng.chance(1, 4) { self.rng.below(self.retries) } else { 0 };
                self.tries.push((i, q.clone(), 0, bad));
                self.tries.len() - 1
            }
        };
        let n = self.tries[k].2;
        self.tries[k].2 += 1;
        let mut right = if self.honest { self.right(i, &m) } else { self.anything(&m, &held) };
        if self.honest && !self.is_dead(i) && n % self.retries >= self.tries[k].3 || !self.honest && self.rng.chance(4, 5) {
            let mut e = enc_msg(&right);
            while e.len() > 512 {
                let s = if right.secs[2].len() > 0 { 2 } else if right.secs[1].len() > 0 { 1 } else { 0 };
                right.secs[s].pop();
                right = counted(right);
                e = enc_msg(&right);
            }
            return self.send(i, q, right, held, e);
        }
        self.useless(i, &m, right, q, held)
    }

    /// Sends a message and notes what may be believed of it.
    fn send(&mut self, i: usize, q: Quest, m: Msg, held: Vec<String>, e: Vec<u8>) -> Vec<Vec<u8>> {
        let head_ok = m.head.qr && m.qs.len() == 1 && m.qs[0] == q;
        let good = head_ok && (m.head.rcode == 0 || m.head.rcode == 3 && m.head.aa);
        self.log.push(Sent { server: i, q: q.clone(), good, msg: Some(m.clone()), what: String::new() });
        if good && m.head.rcode == 0 {
            let ans: Vec<Rec> = m.secs[0].iter().filter(|r| r.node == q.node && type_of(&r.data) == q.rtype).cloned().collect();
            if !ans.is_empty() {
                self.tell(ans, true);
                return vec![e];
            }
            let al = m.secs[0].iter().find(|r| r.node == q.node && type_of(&r.data) == 5).cloned();
            let ns: Vec<Rec> = m.secs[1].iter().filter(|r| type_of(&r.data) == 2).cloned().collect();
            let target = match &al {
                Some(Rec { data: Data::CNAME(t), .. }) => Some(t.clone()),
                _ => None,
            };
            if let Some(r) = al {
                self.tell(vec![r], true);
            }
            for z in &held {
                for r in &ns {
                    let ok = in_zone(&r.node, z)
                        && match &target {
                            Some(t) => in_zone(t, &r.node),
                            None => in_zone(&q.node, &r.node) && labels_of(&r.node).len() > labels_of(z).len(),
                        };
                    if !ok {
                        continue;
                    }
                    self.tell(vec![r.clone()], false);
                    if let Data::NS(h) = &r.data {
                        if in_zone(h, z) {
                            let glue: Vec<Rec> = m.secs[2].iter().filter(|x| x.node == *h && type_of(&x.data) == 1).cloned().collect();
                            self.tell(glue, false);
                        }
                    }
                }
            }
        }
        vec![e]
    }

    /// A reply which must not be used.
    fn useless(&mut self, i: usize, m: &Msg, right: Msg, q: Quest, held: Vec<String>) -> Vec<Vec<u8>> {
        let mut r = right;
        // it tells something else
        if self.rng.chance(1, 2) {
            r.secs[0] = vec![Rec { node: q.node.clone(), ttl: 5000, data: self.lie(q.rtype) }];
            r = counted(r);
        }
        let what;
        let mut e;
        match self.rng.below(14) {
            0 => {
                what = "another id";
                r.head.id = m.head.id.wrapping_add(1 + self.rng.below(65535) as u16);
                e = enc_msg(&r);
            }
            1 => {
                what = "another question";
                r.qs[0].node = child("q", &q.node.chars().take(200).collect::<String>());
                if !valid_name(&r.qs[0].node) {
                    r.qs[0].node = "q.".into();
                }
                e = enc_msg(&r);
            }
            2 => {
                what = "another type";
                r.qs[0].rtype = if q.rtype == 16 { 1 } else { 16 };
                e = enc_msg(&r);
            }
            3 => {
                what = "a query";
                r.head.qr = false;
                e = enc_msg(&r);
            }
            4 => {
                what = "no question";
                r.qs.clear();
                r = counted(r);
                e = enc_msg(&r);
            }
            5 => {
                what = "two questions";
                let x = r.qs[0].clone();
                r.qs.push(x);
                r = counted(r);
                e = enc_msg(&r);
            }
            6 => {
                what = "cut";
                e = enc_msg(&r);
                let n = 12 + self.rng.below(e.len() - 12);
                e.truncate(n);
            }
            7 => {
                what = "noise";
                e = (0..self.rng.range(0, 60)).map(|_| self.rng.below(256) as u8).collect();
                if e.len() >= 2 && e[0] == (m.head.id >> 8) as u8 {
                    e[0] ^= 1;
                }
            }
            8 => {
                what = "a failure";
                r.head.rcode = *self.rng.pick(&[1, 2, 4, 5]);
                e = enc_msg(&r);
            }
            9 => {
                what = "no such name, not authoritative";
                r.head.rcode = 3;
                r.head.aa = false;
                e = enc_msg(&r);
            }
            10 => {
                what = "nothing";
                r.secs = [vec![], vec![], vec![]];
                r.head.rcode = 0;
                r = counted(r);
                e = enc_msg(&r);
                // a message which is believed and tells nothing ends the attempts
                if self.honest && !self.is_dead(i) {
                    e.truncate(11);
                }
            }
            11 => {
                what = "another owner";
                r.head.rcode = 0;
                let n = child("o", "t.");
                r.secs = [vec![Rec { node: n, ttl: 5000, data: self.lie(q.rtype) }], vec![], vec![]];
                r = counted(r);
                e = enc_msg(&r);
                if self.honest && !self.is_dead(i) {
                    e[0] ^= 1;
                }
            }
            12 if self.silences > 0 => {
                what = "silence";
                self.silences -= 1;
                e = vec![];
                self.log.push(Sent { server: i, q, good: false, msg: None, what: what.into() });
                return vec![];
            }
            _ => {
                what = "another id";
                r.head.id = m.head.id ^ 0x100;
                e = enc_msg(&r);
            }
        }
        if matches!(what, "a failure" | "no such name, not authoritative") && self.honest && !self.is_dead(i) {
            // these are believed: the attempts at a server end with them
            e[2] &= 0x7f;
        }
        if e.len() > 512 {
            e.truncate(512);
        }
        let _ = held;
        self.log.push(Sent { server: i, q, good: false, msg: None, what: what.into() });
        vec![e]
    }

    fn lie(&mut self, t: u16) -> Data {
        let host = format!("lie{}.t.", self.rng.below(1000));
        match t {
            1 => Data::A(ip(self.base, self.rng.below(SERVERS))),
            2 => Data::NS(host),
            5 => Data::CNAME(host),
            6 => soa(".").data,
            15 => Data::MX(1, host),
            _ => Data::TXT(vec![host]),
        }
    }

    /// The answer a server of the world gives.
    fn right(&mut self, i: usize, q: &Msg) -> Msg {
        let mut m = reply_to(q);
        let (n, t) = (q.qs[0].node.clone(), q.qs[0].rtype);
        let host = self.hosts.get(i).cloned().unwrap_or_default();
        let mut best: Option<usize> = None;
        for (k, a) in self.areas.iter().enumerate() {
            if a.hosts.contains(&host) && in_zone(&n, &a.name) && best.map_or(true, |b| labels_of(&a.name).len() > labels_of(&self.areas[b].name).len()) {
                best = Some(k);
            }
        }
        let z = match best {
            Some(k) => self.areas[k].clone(),
            None => {
                m.head.rcode = 5;
                m.head.aa = false;
                return counted(m);
            }
        };
        let below = self.cut(&z.name, &n);
        if let Some(c) = below {
            m.head.aa = false;
            self.refer(&mut m, &z.name, c);
            return counted(m);
        }
        let l = self.truth(&n, t);
        if !l.is_empty() {
            m.secs[0] = l;
            if self.rng.chance(1, 4) {
                let at = self.rng.below(m.secs[0].len() + 1);
                let r = Rec { node: child("noise", &z.name), ttl: 77, data: self.lie(t) };
                m.secs[0].insert(at, r);
            }
            return counted(m);
        }
        let c = self.truth(&n, 5);
        if !c.is_empty() {
            m.secs[0] = c.clone();
            if let Data::CNAME(target) = &c[0].data {
                if self.rng.chance(1, 3) && in_zone(target, &z.name) {
                    if let Some(c) = self.cut(&z.name, target) {
                        self.refer(&mut m, &z.name, c);
                    }
                }
                if self.rng.chance(1, 3) {
                    m.secs[0].extend(self.truth(target, t));
                }
                if self.rng.chance(1, 3) {
                    m.secs[0].reverse();
                }
            }
            return counted(m);
        }
        m.secs[1] = vec![soa(&z.name)];
        if !self.exists(&n) {
            m.head.rcode = 3;
        }
        counted(m)
    }

    /// The child of a zone which holds the name.
    fn cut(&self, z: &str, n: &str) -> Option<usize> {
        let mut best: Option<usize> = None;
        for (k, a) in self.areas.iter().enumerate() {
            if a.name != z && in_zone(&a.name, z) && in_zone(n, &a.name) && best.map_or(true, |b| labels_of(&a.name).len() < labels_of(&self.areas[b].name).len()) {
                best = Some(k);
            }
        }
        best
    }

    fn refer(&mut self, m: &mut Msg, z: &str, c: usize) {
        let a = self.areas[c].clone();
        for h in &a.hosts {
            m.secs[1].push(Rec { node: a.name.clone(), ttl: 3600, data: Data::NS(h.clone()) });
            if in_zone(h, z) {
                m.secs[2].push(Rec { node: h.clone(), ttl: 3600, data: Data::A(self.addr(h).unwrap()) });
            } else if self.rng.chance(1, 3) {
                // an address which the server must not tell
                let d = self.lie(1);
                m.secs[2].push(Rec { node: h.clone(), ttl: 3600, data: d });
            }
        }
        if self.rng.chance(1, 4) {
            // a delegation which must not be followed
            let node = if !m.secs[0].is_empty() || self.rng.chance(1, 2) { "elsewhere.".to_string() } else { z.to_string() };
            let i = self.rng.below(SERVERS);
            m.secs[1].insert(0, Rec { node, ttl: 3600, data: Data::NS("bad.t.".into()) });
            m.secs[2].push(Rec { node: "bad.t.".into(), ttl: 3600, data: Data::A(ip(self.base, i)) });
        }
        self.rng.shuffle(&mut m.secs[1]);
    }

    fn some_name(&mut self) -> String {
        let i = self.rng.below(self.pool.len());
        self.pool[i].clone()
    }

    fn some_data(&mut self, t: u16) -> Data {
        match t {
            1 => Data::A(ip(self.base, self.rng.below(SERVERS))),
            2 => Data::NS(self.some_name()),
            5 => Data::CNAME(self.some_name()),
            6 => soa(".").data,
            15 => Data::MX(self.rng.below(9) as u16, self.some_name()),
            _ => Data::TXT(vec![format!("t{}", self.rng.below(100000))]),
        }
    }

    fn some_rec(&mut self, node: &str, t: u16) -> Rec {
        let ttl = *self.rng.pick(&[0, 1, 2, 60, 3600, 3600, 3600, u32::MAX, 1 << 31]);
        Rec { node: node.to_string(), ttl, data: self.some_data(t) }
    }

    /// What a server without rules says.
    fn anything(&mut self, q: &Msg, held: &[String]) -> Msg {
        let mut m = reply_to(q);
        let (n, t) = (q.qs[0].node.clone(), q.qs[0].rtype);
        m.head.aa = self.rng.chance(1, 2);
        match self.rng.below(9) {
            0 | 1 => {
                for _ in 0..self.rng.range(1, 3) {
                    let r = self.some_rec(&n, t);
                    m.secs[0].push(r);
                }
            }
            2 => {
                let r = self.some_rec(&n, 5);
                m.secs[0].push(r);
                self.some_zones(&mut m, held);
            }
            3 => {
                m.head.rcode = 3;
                if self.rng.chance(1, 2) {
                    m.secs[1].push(Rec { node: n.clone(), ..soa(&n) });
                }
            }
            4 => m.head.rcode = self.rng.below(6) as u8,
            _ => self.some_zones(&mut m, held),
        }
        // and anything else
        for s in 0..3 {
            while self.rng.chance(1, 4) {
                let node = self.some_name();
                let t = *self.rng.pick(&[1u16, 2, 5, 6, 15, 16, t]);
                let r = self.some_rec(&node, t);
                let at = self.rng.below(m.secs[s].len() + 1);
                m.secs[s].insert(at, r);
            }
        }
        counted(m)
    }

    fn some_zones(&mut self, m: &mut Msg, held: &[String]) {
        let n = m.qs[0].node.clone();
        for _ in 0..self.rng.range(1, 3) {
            // the name and those above it, or anything
            let ls = labels_of(&n);
            let z = if self.rng.chance(3, 4) {
                let k = self.rng.below(ls.len() + 1);
                if k == ls.len() {
                    ".".to_string()
                } else {
                    ls[k..].join(".") + "."
                }
            } else {
                self.some_name()
            };
            if (z == TOP || z == ".") && !held.is_empty() && self.rng.chance(2, 3) {
                continue;
            }
            let host = self.some_name();
            let ns = Rec { data: Data::NS(host.clone()), ..self.some_rec(&z, 2) };
            m.secs[1].push(ns);
            for _ in 0..self.rng.below(3) {
                let r = self.some_rec(&host, 1);
                m.secs[2].push(r);
            }
        }
    }
}

fn reply_to(q: &Msg) -> Msg {
    let mut m = Msg { head: q.head.clone(), qs: q.qs.clone(), secs: [vec![], vec![], vec![]] };
    m.head.qr = true;
    m.head.aa = true;
    m.head.ra = false;
    m.head.rcode = 0;
    m
}

fn counted(mut m: Msg) -> Msg {
    m.head.counts = [m.qs.len() as u16, m.secs[0].len() as u16, m.secs[1].len() as u16, m.secs[2].len() as u16];
    m
}

fn honest_world(w: &mut World) {
    let r = &mut w.rng;
    let mut areas = vec![Area { name: TOP.into(), hosts: vec![ROOT_HOST.into()], recs: vec![] }];
    let mut hosts = vec![ROOT_HOST.to_string()];
    let tops = r.range(1, 3);
    let total = r.range(2, 6);
    let labels = ["com", "net", "org", "x", "yy", "z-z", "b2"];
    for i in 0..total {
        let parent = if i < tops { 0 } else { r.below(areas.len()) };
        let pname = areas[parent].name.clone();
        if labels_of(&pname).len() >= 4 {
            continue;
        }
        let name = child(*r.pick(&labels), &pname);
        if areas.iter().any(|a| a.name == name) {
            continue;
        }
        let mut hs = vec![];
        let outside = r.chance(1, 3);
        if !outside || r.chance(1, 3) {
            hs.push(if r.chance(2, 3) { child("ns1", &name) } else { child(&format!("h{}", i), &pname) });
        }
        if outside || r.chance(1, 3) {
            // a host of a zone which was made before
            let k = r.below(areas.len());
            if k == 0 {
                hs.push(format!("h{}.t.", i));
            } else {
                hs.push(child(&format!("n{}", i), &areas[k].name.clone()));
            }
        }
        if r.chance(1, 3) {
            hs.push(child("ns2", &name));
        }
        let mut hs: Vec<String> = hs.into_iter().filter(|h| !hosts.contains(h)).collect();
        hs.dedup();
        if hs.is_empty() || hosts.len() + hs.len() > SERVERS {
            continue;
        }
        hosts.extend(hs.iter().cloned());
        areas.push(Area { name, hosts: hs, recs: vec![] });
    }
    w.areas = areas;
    w.hosts = hosts;
    let n = w.hosts.len();
    w.dead = vec![false; n];
    // a server which never answers rightly, where another one can
    if w.faults {
        for a in &w.areas {
            if a.hosts.len() > 1 {
                for h in &a.hosts[1..] {
                    if w.rng.chance(1, 4) {
                        let i = w.hosts.iter().position(|x| x == h).unwrap();
                        w.dead[i] = true;
                    }
                }
                if w.rng.chance(1, 3) && a.hosts.iter().skip(1).any(|h| !w.dead[w.hosts.iter().position(|x| x == h).unwrap()]) {
                    let i = w.hosts.iter().position(|x| *x == a.hosts[0]).unwrap();
                    w.dead[i] = true;
                }
            }
        }
    }
    let mut recs = vec![];
    for (i, h) in w.hosts.iter().enumerate() {
        recs.push(Rec { node: h.clone(), ttl: 3600, data: Data::A(ip(w.base, i)) });
    }
    for a in &w.areas {
        for h in &a.hosts {
            recs.push(Rec { node: a.name.clone(), ttl: 3600, data: Data::NS(h.clone()) });
        }
    }
    // data and aliases
    let mut names = vec![];
    for a in &w.areas {
        for k in 0..w.rng.range(1, 3) {
            names.push(child(&format!("w{}", k), &a.name));
        }
        if a.name != TOP && w.rng.chance(1, 2) {
            names.push(a.name.clone());
        }
    }
    let missing: Vec<String> = w.areas.iter().map(|a| child("none", &a.name)).collect();
    let ttls = [0, 1, 1, 2, 300, 300, 300, 301, 3600, 86400, u32::MAX];
    for n in &names {
        let ttl = *w.rng.pick(&ttls);
        let zone_top = w.areas.iter().any(|a| a.name == *n);
        if !zone_top && w.rng.chance(2, 5) {
            let t = match w.rng.below(8) {
                0 => w.rng.pick(&missing).clone(),
                1 => child("deep", n),
                _ => w.rng.pick(&names).clone(),
            };
            recs.push(Rec { node: n.clone(), ttl, data: Data::CNAME(t) });
            continue;
        }
        for t in [1u16, 15, 16] {
            if w.rng.chance(1, 2) {
                for k in 0..w.rng.range(1, 3) {
                    let ttl = if w.rng.chance(1, 2) { ttl } else { *w.rng.pick(&ttls) };
                    let data = match t {
                        1 => Data::A([10, 0, w.rng.below(250) as u8, k as u8]),
                        15 => Data::MX(k as u16, w.rng.pick(&names).clone()),
                        _ => Data::TXT(vec![format!("text {}", w.rng.below(1000)), k.to_string()]),
                    };
                    recs.push(Rec { node: n.clone(), ttl, data });
                }
            }
        }
    }
    for r in recs {
        let i = w.deepest(&r.node);
        w.areas[i].recs.push(r);
    }
    w.pool = names;
    w.pool.extend(missing);
    let hs: Vec<String> = w.hosts.iter().skip(1).cloned().collect();
    w.pool.extend(hs);
    let zs: Vec<String> = w.areas.iter().skip(1).map(|a| a.name.clone()).collect();
    w.pool.extend(zs);
}

fn hostile_world(w: &mut World) {
    let mut zones = vec!["com.t.", "x.com.t.", "y.x.com.t.", "net.t.", "z.net.t.", "b.z.net.t.", "org.t."];
    let n = w.rng.range(2, zones.len());
    w.rng.shuffle(&mut zones);
    zones.truncate(n);
    let mut pool: Vec<String> = zones.iter().map(|z| z.to_string()).collect();
    for z in &zones {
        pool.push(child("w", z));
        if w.rng.chance(1, 2) {
            pool.push(child("ns", z));
        }
        if w.rng.chance(1, 3) {
            pool.push(child("a", &child("w", z)));
        }
    }
    w.pool = pool;
    w.areas = vec![Area { name: TOP.into(), hosts: vec![ROOT_HOST.into()], recs: vec![] }];
    w.hosts = vec![ROOT_HOST.into()];
    w.dead = vec![false; SERVERS];
}

// ------------------------------------------------------------------ lookups

enum Want {
    Found(Vec<Rec>, Vec<Rec>),
    NoName(Vec<Rec>),
    Fail,
}

/// What a lookup in a world of right servers gives.
fn want(w: &World, n: &str, t: u16, redir: usize, no_follow: bool) -> Want {
    let mut cur = n.to_string();
    let mut chain: Vec<Rec> = vec![];
    loop {
        if chain.len() == redir {
            return Want::Fail;
        }
        let l = w.truth(&cur, t);
        if !l.is_empty() {
            return Want::Found(chain, l);
        }
        if let Some(c) = w.truth(&cur, 5).first() {
            let target = match &c.data {
                Data::CNAME(x) => x.clone(),
                _ => unreachable!(),
            };
            chain.push(c.clone());
            if no_follow || chain.iter().any(|r| r.node == target) {
                return Want::Fail;
            }
            cur = target;
            continue;
        }
        return if w.exists(&cur) { Want::Fail } else { Want::NoName(chain) };
    }
}

fn data_of(v: &[Rec]) -> Vec<String> {
    let mut v: Vec<String> = v.iter().map(|r| format!("{} {:?}", r.node, r.data)).collect();
    v.sort();
    v
}

pub fn run(case: &str) -> Result<(bool, Vec<(&'static str, String)>), String> {
    let f: Vec<&str> = case.split(' ').collect();
    let seed: u64 = f[1].parse().unwrap();
    let lookups: usize = f[2].parse().unwrap();
    let waits: bool = f[3] == "1";
    let p = pool();
    let mut rng = Rng::new(seed);
    let honest = f[0] == "h";
    let faults = honest && rng.chance(1, 2);
    let retries = rng.range(1, 3);
    let mut w = World {
        base: p.base,
        honest,
        rng: Rng::new(seed ^ 0x5555),
        areas: vec![],
        hosts: vec![],
        dead: vec![],
        retries,
        silences: if rng.chance(1, 12) { 1 } else { 0 },
        faults,
        tries: vec![],
        pool: vec![],
        cap: if honest { 5000 } else { 60 },
        lookup: 0,
        from: 0,
        queries: 0,
        log: vec![],
        told: vec![],
        kept: vec![],
        known: vec![],
        wrong: vec![],
    };
    if honest {
        honest_world(&mut w);
    } else {
        hostile_world(&mut w);
    }
    let redir = *rng.pick(&[1usize, 2, 3, 3, 5, 10]);
    let no_follow = rng.chance(1, 10);
    let read_timeout = Duration::from_millis(if honest { 1500 } else { 150 });
    let params = ResolverParams {
        max_ns_queried: if honest { 4 } else { rng.range(1, 3) },
        max_upd_retries: retries,
        max_cname_redir: redir,
        read_timeout,
        write_timeout: Duration::from_secs(20),
        no_follow_cname: no_follow,
    };
    let cache: Arc<RecordsCache> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(600), max_cleaned: 10 }));
    let start = vec![
        Rec { node: TOP.into(), ttl: 600000, data: Data::NS(ROOT_HOST.into()) },
        Rec { node: ROOT_HOST.into(), ttl: 600000, data: Data::A(ip(p.base, 0)) },
    ];
    for r in &start {
        w.tell(vec![r.clone()], true);
        cache.set((name(&r.node), real_type(type_of(&r.data))), Duration::from_secs(600000), vec![real_rec(r)]);
    }
    w.taken_in();
    let trace = TraceParams { silent: rng.chance(1, 2), verbose: rng.chance(1, 2), color: true };
    let resolver = Resolver::new(&cache, params, trace);
    let pool = w.pool.clone();
    // NS records which are asked for are kept without addresses: what may be queried then is less than what the zone has
    let types: &[u16] = if w.dead.is_empty() { &[1, 1, 1, 16, 15, 5, 2, 6] } else { &[1, 1, 1, 16, 15, 5, 6] };
    let asked: Vec<(String, u16)> = {
        let few: Vec<(String, u16)> =
            (0..rng.range(1, 4)).map(|_| (rng.pick(&pool).clone(), *rng.pick(types))).collect();
        (0..lookups).map(|_| rng.pick(&few).clone()).collect()
    };
    *p.world.lock().unwrap() = Some(w);
    let mut wrong: Vec<(&'static str, String)> = vec![];
    let mut story = String::new();
    let mut answered = false;
    for (k, (n, t)) in asked.iter().enumerate() {
        if waits && k > 0 {
            std::thread::sleep(Duration::from_millis(*rng.pick(&[0u64, 300, 1100, 1600])));
        }
        let from = {
            let mut g = p.world.lock().unwrap();
            let w = g.as_mut().unwrap();
            w.lookup = k;
            w.queries = 0;
            w.from = w.log.len();
            w.from
        };
        let s = Instant::now();
        let (res, trace) = resolver.new_lookup(&name(n), real_type(*t)).perform();
        let e = Instant::now();
        let _ = std::hint::black_box(format!("{}", trace));
        let mut g = p.world.lock().unwrap();
        let w = g.as_mut().unwrap();
        w.taken_in();
        story.push_str(&format!("lookup {} of {} {} (max_cname_redir {}, no_follow {}, retries {}):\n", k, n, t, redir, no_follow, retries));
        for x in &w.log[from..] {
            story.push_str(&format!("  {} asked {} {}: {} {}\n", w.hosts.get(x.server).cloned().unwrap_or_else(|| x.server.to_string()), x.q.node, x.q.rtype, x.what, x.msg.as_ref().map(short).unwrap_or_default()));
        }
        let mut bad = |p: &'static str, m: String| wrong.push((p, m));
        // attempts without a datagram end with the read timeout, not with the (much longer) one of writes
        let quiet = w.log[from..].iter().filter(|x| x.what == "silence").count() as u32;
        if quiet > 0 && e - s > read_timeout * quiet + Duration::from_secs(12) {
            bad("C14", format!("an attempt without a datagram takes {:?}, the read timeout is {:?}", e - s, read_timeout));
        }
        match &res {
            Err(err) => {
                story.push_str(&format!("  failed: {:?}\n", err));
                if honest {
                    match want(w, n, *t, redir, no_follow) {
                        Want::Fail => {}
                        Want::Found(c, _) => bad(if c.is_empty() { "C14" } else { "C13" }, format!("the lookup fails: {:?}", err)),
                        Want::NoName(_) => bad("C14", format!("the lookup of a name which does not exist fails: {:?}", err)),
                    }
                }
            }
            Ok(LookupResponse(a, b, c, none)) => {
                let a: Vec<Rec> = a.iter().map(model_rec).collect::<Result<_, _>>()?;
                let b: Vec<Rec> = b.iter().map(model_rec).collect::<Result<_, _>>()?;
                let c: Vec<Rec> = c.iter().map(model_rec).collect::<Result<_, _>>()?;
                story.push_str(&format!("  gave {} {:?}\n", none, a));
                // the chain
                w.learnt();
                let mut cur = n.clone();
                let mut chain = vec![];
                let mut i = 0;
                while i < a.len() && (*none || !(a[i].node == cur && type_of(&a[i].data) == *t)) {
                    match &a[i].data {
                        Data::CNAME(x) if a[i].node == cur => {
                            chain.push(a[i].clone());
                            if chain.iter().any(|r| r.node == *x) {
                                bad("C13", format!("the aliases are a loop: {:?}", a));
                            }
                            cur = x.clone();
                        }
                        _ => {
                            bad("C13", format!("{:?} does not follow from {}: {:?}", a[i], cur, a));
                            break;
                        }
                    }
                    i += 1;
                    if i > 20000 {
                        break;
                    }
                }
                let rest = a[i..].to_vec();
                if rest.iter().any(|r| r.node != cur || type_of(&r.data) != *t) {
                    bad("C13", format!("records which are not the ones of {} {}: {:?}", cur, t, a));
                }
                if chain.len() >= redir {
                    bad("C13", format!("{} aliases: {:?}", chain.len(), a));
                }
                if no_follow && !chain.is_empty() {
                    bad("C13", format!("an alias is followed: {:?}", a));
                }
                if !*none && rest.is_empty() {
                    bad("C13", format!("nothing at the end of the aliases: {:?}", a));
                }
                // where the answer comes from
                let last = w.log[from..].last().cloned();
                let fresh = last.as_ref().map_or(false, |x| {
                    x.good && x.q.node == cur && x.q.rtype == *t && x.msg.as_ref().map_or(false, |m| m.head.rcode == 0 && m.secs[0].iter().any(|r| r.node == cur && type_of(&r.data) == *t))
                });
                if *none {
                    let denied = last.as_ref().map_or(false, |x| x.good && x.q.node == cur && x.q.rtype == *t && x.msg.as_ref().map_or(false, |m| m.head.rcode == 3));
                    if !denied {
                        bad("C14", "the name is denied by no response".to_string());
                    }
                } else if fresh {
                    answered = true;
                    let m = last.unwrap().msg.unwrap();
                    let l: Vec<Rec> = m.secs[0].iter().filter(|r| r.node == cur && type_of(&r.data) == *t).cloned().collect();
                    let key = |v: &[Rec]| {
                        let mut v: Vec<String> = v.iter().map(|r| format!("{:?}", r)).collect();
                        v.sort();
                        v
                    };
                    if key(&l) != key(&rest) {
                        bad("C14", format!("the answer is {:?}, the response held {:?}", rest, l));
                    }
                    if c != m.secs[2] || !b.is_empty() {
                        bad("C14", format!("other records are {:?} {:?}, the response held {:?}", b, c, m.secs[2]));
                    }
                } else {
                    // from the cache
                    if !b.is_empty() || !c.is_empty() {
                        bad("C14", format!("records which no response held: {:?} {:?}", b, c));
                    }
                    let all: Vec<&Told> = w.told.iter().filter(|x| x.node == cur && x.rtype == *t).collect();
                    match all.last() {
                        None => bad("C14", format!("the answer {:?} was in no response", rest)),
                        Some(x) if all.iter().all(|x| x.whole) => {
                            answered = true;
                            if data_of(&x.recs) != data_of(&rest) {
                                bad("C11", format!("the cache gives {:?}, last received were {:?}", rest, x.recs));
                            }
                            for r in &rest {
                                if let Some(m) = aged(x, r, s, e) {
                                    bad("C11", m);
                                }
                            }
                        }
                        _ => {
                            for r in &rest {
                                if !all.iter().any(|x| x.recs.iter().any(|y| y.data == r.data && y.ttl >= r.ttl)) {
                                    bad("C11", format!("the cache gives {:?}, received were {:?}", r, all));
                                }
                            }
                        }
                    }
                    let ttls: Vec<u32> = rest.iter().map(|r| r.ttl).collect();
                    if ttls.windows(2).any(|p| p[0] != p[1]) {
                        bad("C11", format!("the cache gives times to live {:?}", ttls));
                    }
                }
                for r in &chain {
                    w.kept.push((r.node.clone(), 5));
                    let all: Vec<&Told> = w.told.iter().filter(|x| x.node == r.node && x.rtype == 5 && x.recs.iter().any(|y| y.data == r.data)).collect();
                    if all.is_empty() {
                        bad("C14", format!("the alias {:?} was in no response", r));
                    } else if all.iter().all(|x| x.lookup != k && aged(x, r, s, e).is_some()) {
                        bad("C11", format!("the alias {:?} is over: {}", r, aged(all[all.len() - 1], r, s, e).unwrap()));
                    } else if all.iter().all(|x| x.recs.iter().all(|y| y.ttl < r.ttl)) {
                        bad("C11", format!("the alias {:?} has a higher time to live than {:?}", r, all));
                    }
                }
                if honest {
                    match want(w, n, *t, redir, no_follow) {
                        Want::Fail => bad("C13", format!("the lookup gives {:?}", a)),
                        Want::Found(c, l) => {
                            if *none {
                                bad("C14", format!("the name is denied instead of {:?} {:?}", c, l));
                            } else if data_of(&c) != data_of(&chain) {
                                bad("C13", format!("the aliases are {:?} instead of {:?}", chain, c));
                            } else if data_of(&l) != data_of(&rest) {
                                bad("C14", format!("the answer is {:?} instead of {:?}", rest, l));
                            }
                        }
                        Want::NoName(c) => {
                            if !*none {
                                bad("C14", format!("the answer to a name which does not exist is {:?}", a));
                            } else if data_of(&c) != data_of(&chain) {
                                bad("C13", format!("the aliases are {:?} instead of {:?}", chain, c));
                            }
                        }
                    }
                }
            }
        }
        wrong.append(&mut w.wrong);
    }
    // what the cache holds
    let g = p.world.lock().unwrap();
    let w = g.as_ref().unwrap();
    let mut names: Vec<String> = w.told.iter().map(|t| t.node.clone()).chain(pool.iter().cloned()).collect();
    names.extend((0..3).map(|i| format!("h{}.t.", i)));
    names.extend(["bad.t.".to_string(), "elsewhere.".to_string(), "o.t.".to_string()]);
    names.sort();
    names.dedup();
    for n in &names {
        for t in [1u16, 2, 5, 6, 15, 16] {
            let now = Instant::now();
            if let Some((exp, l)) = cache.get_clone(&(name(n), real_type(t))) {
                let l: Vec<Rec> = l.iter().map(model_rec).collect::<Result<_, _>>()?;
                let all: Vec<&Told> = w.told.iter().filter(|x| x.node == *n && x.rtype == t).collect();
                for r in &l {
                    if r.node != *n || type_of(&r.data) != t {
                        wrong.push(("C11", format!("under {} {} the cache holds {:?}", n, t, r)));
                    } else if !all.iter().any(|x| x.recs.iter().any(|y| y.data == r.data)) {
                        wrong.push(("C12", format!("the cache holds {:?}, which no server could tell", r)));
                    } else if !all.iter().any(|x| x.recs.iter().any(|y| y.data == r.data && y.ttl >= r.ttl && exp <= x.t1.unwrap() + Duration::from_secs(y.ttl as u64))) {
                        wrong.push(("C11", format!("the cache holds {:?} for {:?}, told were {:?}", r, exp.saturating_duration_since(now), all)));
                    }
                }
            }
        }
    }
    let wrong = wrong.into_iter().map(|(p, m)| (p, format!("{}\n{}", m, story))).collect();
    if std::env::var("HX_STORY").is_ok() {
        eprintln!("{}", story);
    }
    Ok((answered, wrong))
}

/// Why a record which the cache gave between the two moments is not what was told.
fn aged(x: &Told, r: &Rec, s: Instant, e: Instant) -> Option<String> {
    let low = x.recs.iter().map(|y| y.ttl).min().unwrap();
    let s = s.max(x.t0);
    let (lo, hi) = (x.t0 + Duration::from_secs(low as u64), x.t1.unwrap() + Duration::from_secs(low as u64));
    if s >= hi {
        return Some(format!("{:?} is given {:?} after its end (told {:?})", r, s - hi, x.recs));
    }
    let (most, least) = ((hi - s).as_secs().min(low as u64), lo.saturating_duration_since(e).as_secs().min(low as u64));
    if (r.ttl as u64) > most || (r.ttl as u64) < least {
        return Some(format!("{:?} is given with a time to live which is not from {} to {} (told {:?})", r, least, most, x.recs));
    }
    None
}

fn short(m: &Msg) -> String {
    let f = |v: &[Rec]| v.iter().map(|r| format!("{} {} {:?}", r.node, r.ttl, r.data)).collect::<Vec<String>>().join(", ");
    format!("code {} aa {} [{}] [{}] [{}]", m.head.rcode, m.head.aa, f(&m.secs[0]), f(&m.secs[1]), f(&m.secs[2]))
}

fn only(p: &str, case: &str) -> Res {
    let (nt, wrong) = run(case)?;
    for (q, m) in wrong {
        if q == p {
            return Err(m);
        }
    }
    Ok(nt)
}

pub fn check_c11(case: &str) -> Res {
    only("C11", case)
}
pub fn check_c12(case: &str) -> Res {
    only("C12", case)
}
pub fn check_c13(case: &str) -> Res {
    only("C13", case)
}
pub fn check_c14(case: &str) -> Res {
    only("C14", case)
}

pub fn gen(prop: &str, r: &mut Rng, _part: usize, _parts: usize, emit: Emit) {
    pool();
    let mut i = 0;
    loop {
        i += 1;
        let waits = prop == "C11" && (i % 100 == 0);
        let honest = match prop {
            "C11" => r.chance(2, 3),
            "C12" => r.chance(1, 3),
            "C13" => r.chance(2, 3),
            _ => r.chance(1, 2),
        };
        let n = if waits { r.range(3, 6) } else { r.range(1, 8) };
        if !emit(format!("{} {} {} {}", if honest { "h" } else { "x" }, r.next() >> 1, n, waits as u8)) {
            return;
        }
    }
}
