//! C17: the programs, as processes of their own.

use crate::ensure;
use crate::json;
use crate::model::*;
use crate::p_ns::{answered, queries, short_of};
use crate::p_zone::*;
use crate::util::*;
use std::io::{Read, Write};
use std::net::{Ipv4Addr, TcpStream, UdpSocket};
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

extern "C" {
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// The process ends with its parent.
fn die_with_parent() {
    unsafe {
        prctl(1, 9, 0, 0, 0);
    }
}

fn program(kind: &str) -> Option<PathBuf> {
    let p = PathBuf::from(std::env::var("HX_BINS").ok()?).join(if kind == "ns" { "nameserver" } else { "resolver" });
    p.is_file().then_some(p)
}

pub fn present() -> bool {
    program("ns").is_some() && program("rs").is_some()
}

struct Running(Child);
impl Drop for Running {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

fn start(kind: &str, dir: &str, args: &[&str]) -> Running {
    let mut c = Command::new(program(kind).unwrap());
    c.args(args).current_dir(dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            die_with_parent();
            Ok(())
        });
    }
    Running(c.spawn().unwrap())
}

fn scratch() -> String {
    enter_scratch();
    let d = "programs.d".to_string();
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// The program ends by itself, with an exit code which is not zero.
fn ends(mut p: Running, what: &str) -> Result<(), String> {
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(12) {
        if let Some(s) = p.0.try_wait().unwrap() {
            ensure!(!s.success(), "{}: the program ended with success", what);
            ensure!(s.code().is_some(), "{}: the program was killed: {:?}", what, s);
            return Ok(());
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    Err(format!("{}: the program runs", what))
}

#[derive(Clone, Copy)]
struct At {
    udp: (Ipv4Addr, u16),
    tcp: (Ipv4Addr, u16),
    udp_threads: usize,
    tcp_threads: usize,
    rd: u64,
    wr: u64,
}

impl At {
    /// Addresses of this process alone, and ports outside the range used for clients.
    fn new(r: &mut Rng) -> At {
        let pid = std::process::id();
        let (a, b) = (100 + (pid >> 8) as u8 % 100, pid as u8);
        let u = 20000 + r.below(6000) as u16;
        let t = 26000 + r.below(6000) as u16;
        let threads = r.range(1, 2);
        At {
            udp: (Ipv4Addr::new(127, a, b, 1), u),
            tcp: (Ipv4Addr::new(127, a, b, 2), t),
            udp_threads: 3 - threads,
            tcp_threads: threads,
            rd: r.range(2, 3) as u64,
            wr: r.range(40, 60) as u64,
        }
    }
    fn json(&self) -> String {
        format!(
            "\"log_level\": \"ERROR\", \"udp_server\": {{\"address\": \"{}\", \"port\": {}, \"write_timeout\": {}, \"threads\": {}}}, \
             \"tcp_server\": {{\"address\": \"{}\", \"port\": {}, \"read_timeout\": {}, \"write_timeout\": {}, \"threads\": {}}}",
            self.udp.0, self.udp.1, self.wr, self.udp_threads, self.tcp.0, self.tcp.1, self.rd, self.wr, self.tcp_threads
        )
    }
    /// Waits until both servers are there.
    fn up(&self, p: &mut Running) -> Result<(), String> {
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(12) {
            if let Some(s) = p.0.try_wait().unwrap() {
                return Err(format!("the program ended: {:?}", s));
            }
            if UdpSocket::bind(self.udp).is_err() && TcpStream::connect(self.tcp).is_ok() {
                return Ok(());
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        Err(format!("no servers at {:?} and {:?}", self.udp, self.tcp))
    }
    fn ask_tcp(&self, q: &[u8], secs: u64) -> Result<Vec<u8>, String> {
        let mut s = TcpStream::connect(self.tcp).map_err(|e| format!("tcp: {}", e))?;
        s.set_read_timeout(Some(Duration::from_secs(secs))).unwrap();
        s.write_all(&[&[(q.len() >> 8) as u8, q.len() as u8][..], q].concat()).map_err(|e| format!("tcp: {}", e))?;
        let mut got = vec![];
        s.read_to_end(&mut got).map_err(|e| format!("tcp: {}", e))?;
        ensure!(got.len() > 2, "tcp: reply of {} bytes", got.len());
        Ok(got[2..].to_vec())
    }
    fn ask_udp(&self, q: &[u8], secs: u64) -> Result<Vec<u8>, String> {
        let s = UdpSocket::bind("0.0.0.0:0").unwrap();
        s.set_read_timeout(Some(Duration::from_secs(secs))).unwrap();
        s.connect(self.udp).map_err(|e| format!("udp: {}", e))?;
        s.send(q).map_err(|e| format!("udp: {}", e))?;
        let mut b = [0u8; 2048];
        let n = s.recv(&mut b).map_err(|e| format!("udp: {}", e))?;
        Ok(b[..n].to_vec())
    }
    /// A client which is silent is given up after the timeout; as many clients as threads are served at a time.
    fn idle(&self) -> Result<(), String> {
        // the header of a request which says nothing: both servers answer it
        let q = [0u8, 9, 0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        let start = Instant::now();
        let mut silent = vec![];
        for _ in 0..self.tcp_threads {
            silent.push(TcpStream::connect(self.tcp).map_err(|e| format!("tcp: {}", e))?);
        }
        std::thread::sleep(Duration::from_millis(50));
        if self.tcp_threads > 1 {
            drop(silent.pop());
            let t = Instant::now();
            self.ask_tcp(&q, 30)?;
            ensure!(t.elapsed().as_secs_f64() < 0.8 * self.rd as f64, "a silent client holds {} threads", self.tcp_threads);
        } else {
            self.ask_tcp(&q, 30)?;
            ensure!(start.elapsed().as_secs_f64() > 0.9 * self.rd as f64, "two clients served at a time by {} threads", self.tcp_threads);
        }
        let mut s = silent.pop().unwrap();
        s.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
        let mut b = [0u8; 1];
        match s.read(&mut b) {
            Ok(1) => return Err("a reply to nothing".into()),
            Ok(_) => {}
            Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => {}
            Err(e) => return Err(format!("a silent client is kept for {:?}, read timeout {} s: {}", start.elapsed(), self.rd, e)),
        }
        let held = start.elapsed().as_secs_f64();
        ensure!(held > 0.9 * self.rd as f64, "a silent client is given up after {} s, read timeout {} s", held, self.rd);
        Ok(())
    }
}

pub fn check(case: &str) -> Res {
    let w: Vec<&str> = case.split_whitespace().collect();
    if !present() {
        return Ok(false);
    }
    let seed: u64 = w[2].parse().unwrap();
    let mut r = Rng::new(seed);
    match w[1] {
        // wrong arguments, or a configuration which is refused
        "args" => {
            let d = scratch();
            for kind in ["ns", "rs"] {
                std::fs::write(format!("{}/bad.json", d), "{}").unwrap();
                let a: &[&str] = match seed % 4 {
                    0 => &[],
                    1 => &["bad.json"],
                    2 => &["none.json"],
                    _ => &["bad.json", "bad.json"],
                };
                ends(start(kind, &d, a), &format!("{} {:?}", kind, a))?;
            }
            Ok(true)
        }
        "ns" => {
            let z = dec_zones(&case.split_once(" Z ").unwrap().1.split_once(" Q ").unwrap().0);
            let qs: Vec<Vec<u8>> = case.split_once(" Q ").unwrap().1.split_whitespace().map(unhex).collect();
            let (model, real) = (load_model(&z), load_real(&z));
            let d = scratch();
            for (n, t) in &z.files {
                std::fs::write(format!("{}/{}", d, n), t).unwrap();
            }
            let subs: Vec<String> = z
                .subs
                .iter()
                .map(|(n, a, b, f)| format!("{{\"zone\": {}, \"file\": {}, \"starting_ttl\": {}, \"min_ttl\": {}}}", json(n), json(f), a, b))
                .collect();
            let at = At::new(&mut r);
            let conf = format!(
                "{{{}, \"zone\": {{\"zone\": {}, \"file\": {}, \"starting_ttl\": {}, \"sub_zones\": [{}]}}}}",
                at.json(),
                json(&z.zone),
                json(&z.files[0].0),
                z.ttl,
                subs.join(", ")
            );
            std::fs::write(format!("{}/conf.json", d), &conf).unwrap();
            let mut p = start("ns", &d, &["conf.json"]);
            let l = match (model, real) {
                (Err(_), Err(_)) => {
                    ends(p, "zones which are refused")?;
                    return Ok(true);
                }
                (Ok(l), Ok(_)) => l,
                _ => return Ok(false),
            };
            at.up(&mut p).map_err(|e| format!("{}: {}", e, conf))?;
            for q in &qs {
                let m = match dec_msg(q) {
                    Ok(m) => m,
                    Err(_) => continue,
                };
                let whole = at.ask_tcp(q, 20)?;
                let got = dec_msg(&whole).map_err(|e| format!("reply {:?}: {}", e, hex(&whole)))?;
                answered(&z, &l, &m, &got)?;
                // longer ones do not fit in what the server takes from a datagram
                if q.len() > 512 {
                    continue;
                }
                let b = at.ask_udp(q, 20)?;
                let got = dec_msg(&b).map_err(|e| format!("reply {:?}: {}", e, hex(&b)))?;
                ensure!(got.head.tc || b.len() == whole.len() && short_of(&got) == short_of(&dec_msg(&whole).unwrap()), "over udp {:?}", got);
            }
            at.idle()?;
            ensure!(p.0.try_wait().unwrap().is_none(), "the program ended");
            Ok(true)
        }
        // the resolver, in a network of its own where it finds root servers
        "rs" => {
            let d = scratch();
            let me = std::env::current_exe().unwrap();
            let mut c = Command::new("unshare");
            c.args(["-Urn", "sh", "-c", "ip link set lo up && exec \"$0\" \"$@\""]).arg(me).arg("world").arg(w[2]);
            c.current_dir(&d).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
            let out = Running(c.spawn().map_err(|e| e.to_string())?);
            let mut p = out;
            let mut said = String::new();
            let _ = p.0.stdout.take().unwrap().read_to_string(&mut said);
            match said.trim() {
                "HOLDS" => Ok(true),
                // no network of its own here
                "" => Ok(false),
                s => Err(s.to_string()),
            }
        }
        _ => panic!("bad case"),
    }
}

const ROOTS: [[u8; 4]; 13] = [
    [198, 41, 0, 4],
    [199, 9, 14, 201],
    [192, 33, 4, 12],
    [199, 7, 91, 13],
    [192, 203, 230, 10],
    [192, 5, 5, 241],
    [192, 112, 36, 4],
    [198, 97, 190, 53],
    [192, 36, 148, 17],
    [192, 58, 128, 30],
    [193, 0, 14, 129],
    [199, 7, 83, 42],
    [202, 12, 27, 33],
];

/// Root servers: what they were asked, when. They know www.ID. and the aliases aK.ID. of the one before.
fn roots(asked: Arc<Mutex<Vec<(usize, String, Instant)>>>) -> bool {
    for (i, a) in ROOTS.iter().enumerate() {
        let a = Ipv4Addr::from(*a);
        match Command::new("ip").args(["addr", "add", &format!("{}/32", a), "dev", "lo"]).status() {
            Ok(s) if s.success() => {}
            _ => return false,
        }
        let s = match UdpSocket::bind((a, 53)) {
            Ok(s) => s,
            Err(_) => return false,
        };
        let asked = Arc::clone(&asked);
        std::thread::spawn(move || {
            let mut b = [0u8; 2048];
            while let Ok((n, from)) = s.recv_from(&mut b) {
                let mut m = match dec_msg(&b[..n]) {
                    Ok(m) if m.qs.len() == 1 => m,
                    _ => continue,
                };
                let name = m.qs[0].node.clone();
                asked.lock().unwrap().push((i, name.clone(), Instant::now()));
                let (first, rest) = name.split_once('.').unwrap();
                let data = match first {
                    "www" => Data::A([10, 1, 2, 3]),
                    _ => match first.strip_prefix('a').and_then(|k| k.parse::<u32>().ok()) {
                        Some(0) => Data::CNAME(format!("www.{}", rest)),
                        Some(k) => Data::CNAME(format!("a{}.{}", k - 1, rest)),
                        None => continue,
                    },
                };
                m.head.qr = true;
                m.head.aa = true;
                m.head.counts = [1, 1, 0, 0];
                m.secs = [vec![Rec { node: name, ttl: 3000, data }], vec![], vec![]];
                let _ = s.send_to(&enc_msg(&m), from);
            }
        });
    }
    true
}

/// Runs in a network of its own: prints HOLDS, what fails, or nothing if there is no such network.
pub fn world(seed: u64) {
    die_with_parent();
    let asked = Arc::new(Mutex::new(vec![]));
    if !present() || !roots(Arc::clone(&asked)) {
        return;
    }
    let mut r = Rng::new(seed);
    match resolved(&mut r, asked) {
        Ok(()) => println!("HOLDS"),
        Err(e) => println!("{}", e.replace('\n', " ")),
    }
}

fn resolved(r: &mut Rng, asked: Arc<Mutex<Vec<(usize, String, Instant)>>>) -> Result<(), String> {
    let at = At::new(r);
    let (ns, tries) = *r.pick(&[(1usize, 3usize), (3, 1), (2, 1), (1, 2), (4, 1)]);
    let redir = r.range(5, 9);
    let (rd, wr) = (r.range(1, 2), r.range(30, 40));
    let q = |name: String| {
        enc_msg(&Msg {
            head: Head { id: 77, qr: false, op: 0, aa: false, tc: false, rd: true, ra: false, z: 0, rcode: 0, counts: [1, 0, 0, 0] },
            qs: vec![Quest { node: name, rtype: 1 }],
            secs: [vec![], vec![], vec![]],
        })
    };
    let conf = format!(
        "{{{}, \"resolver\": {{\"max_ns_queried\": {}, \"max_ns_retries\": {}, \"max_cname_redir\": {}, \"read_timeout\": {}, \"write_timeout\": {}, \
         \"cache_conf\": {{\"clean_period\": 1, \"entries_cleaned\": 100}}, \"trace_conf\": {{\"silent\": true, \"verbose\": false, \"color\": false}}}}}}",
        at.json(),
        ns,
        tries,
        redir,
        rd,
        wr
    );
    std::fs::write("conf.json", &conf).unwrap();
    let mut p = start("rs", ".", &["conf.json"]);
    let said = |e: String| format!("{}: {}", e, conf);
    at.up(&mut p).map_err(said)?;
    // aliases: one less than the limit, and as many as the limit
    for (k, found) in [(redir - 1, true), (redir, false)] {
        let first = format!("a{}.x{}.", k - 1, k);
        let b = at.ask_tcp(&q(first.clone()), 20).map_err(said)?;
        let m = dec_msg(&b).map_err(|e| format!("reply {:?}", e))?;
        if found {
            ensure!(m.head.rcode == 0 && m.secs[0].len() == k + 1, "{} aliases from {}: {:?}: {}", k, first, m, conf);
            // again: told from the cache, also when it was cleaned
            std::thread::sleep(Duration::from_millis(1200));
            let n = asked.lock().unwrap().len();
            let b = at.ask_udp(&q(first.clone()), 20).map_err(said)?;
            let again = dec_msg(&b).map_err(|e| format!("reply {:?}", e))?;
            ensure!(again.head.rcode == 0 && again.secs[0].len() == k + 1, "from the cache, {} aliases from {}: {:?}: {}", k, first, again, conf);
            ensure!(asked.lock().unwrap().len() == n, "upstream servers asked again for {}: {}", first, conf);
        } else {
            ensure!(m.head.rcode == 2 && m.secs[0].is_empty(), "{} aliases from {}: {:?}: {}", k, first, m, conf);
        }
    }
    // a name nobody answers
    asked.lock().unwrap().clear();
    let t = Instant::now();
    let b = at.ask_udp(&q("silent.x.".into()), 40).map_err(said)?;
    let took = t.elapsed().as_secs_f64();
    let m = dec_msg(&b).map_err(|e| format!("reply {:?}", e))?;
    ensure!(m.head.rcode == 2, "an answer nobody gave: {:?}", m);
    let g = asked.lock().unwrap();
    let mut per = [0usize; 13];
    for (i, _, _) in g.iter() {
        per[*i] += 1;
    }
    let servers = per.iter().filter(|x| **x > 0).count();
    ensure!(servers == ns, "{} nameservers asked instead of {}: {}", servers, ns, conf);
    ensure!(per.iter().all(|x| *x <= tries), "attempts {:?}, at most {}: {}", per, tries, conf);
    ensure!(took > 0.9 * (g.len() * rd) as f64 && took < (g.len() * rd) as f64 + 15.0, "{} queries which time out after {} s took {} s: {}", g.len(), rd, took, conf);
    drop(g);
    at.idle().map_err(said)?;
    ensure!(p.0.try_wait().unwrap().is_none(), "the program ended: {}", conf);
    Ok(())
}

/// The cases of this part of the search.
pub fn cases(r: &mut Rng, part: usize, parts: usize) -> Vec<String> {
    let mut v = vec![];
    if !present() {
        return v;
    }
    for k in 0..4 {
        if k % parts == part % parts.max(1) {
            v.push(format!("main args {}", k));
        }
    }
    if part % 2 == 1 {
        v.push(format!("main rs {}", r.below(1 << 30)));
    } else {
        let mut bad = 0;
        while v.len() < 4 {
            let z = gen_zones(r);
            let l = match load_model(&z) {
                Err(_) if bad > 0 => continue,
                Err(_) => {
                    bad += 1;
                    None
                }
                Ok(l) if l.auth.len() < 3 => continue,
                Ok(l) => Some(l),
            };
            let q = l.map_or("00".to_string(), |l| queries(r, &z, &l, 12));
            v.push(format!("main ns {} Z {} Q {}", r.below(1 << 30), enc_zones(&z), q));
        }
    }
    v
}
