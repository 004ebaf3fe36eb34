PRE = r'''
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream, UdpSocket};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
struct Running(Child);
impl Drop for Running { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }
fn start(name: &str, args: &[&str]) -> Running {
    let p = format!("{}/{}", std::env::var("BINS").unwrap(), name);
    Running(Command::new(p).args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap())
}
fn ports() -> (u16, u16) {
    (UdpSocket::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port(), TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port())
}
fn servers(u: u16, t: u16, rd: u64, wr: u64, ut: usize, tt: usize) -> String {
    format!("\"log_level\": \"ERROR\", \"udp_server\": {{\"address\": \"127.0.0.1\", \"port\": {u}, \"write_timeout\": {wr}, \"threads\": {ut}}}, \"tcp_server\": {{\"address\": \"127.0.0.1\", \"port\": {t}, \"read_timeout\": {rd}, \"write_timeout\": {wr}, \"threads\": {tt}}}")
}
fn up(t: u16) -> TcpStream {
    for _ in 0..200 {
        if let Ok(s) = TcpStream::connect(("127.0.0.1", t)) { return s; }
        std::thread::sleep(Duration::from_millis(25));
    }
    panic!("no server")
}
'''
NSMAIN = 'src/bin/nameserver.rs'
RSMAIN = 'src/bin/resolver.rs'

plant('C17-sub-min-ttl', 'C17', [(NSMAIN, 'min_ttl: sub_zone_conf.min_ttl', 'min_ttl: sub_zone_conf.starting_ttl')],
      'a sub zone whose minimum ttl differs from the one it starts with, and a record with a ttl between the two',
      'the nameserver program loads the sub zones with the starting ttl as the minimum, not the value of its configuration',
      PRE + r'''
fn main() {
    let d = tempdir();
    std::env::set_current_dir(&d).unwrap();
    std::fs::write("z", "@ IN 60 SOA ns.other. mail 1 2 3 4 5\n@ NS ns.other.\n").unwrap();
    std::fs::write("s", "@ IN 100 NS ns.other.\n").unwrap();
    let (u, t) = ports();
    std::fs::write("c.json", format!("{{{}, \"zone\": {{\"zone\": \"example.com.\", \"file\": \"z\", \"starting_ttl\": 60, \"sub_zones\": [{{\"zone\": \"a.example.com.\", \"file\": \"s\", \"starting_ttl\": 3600, \"min_ttl\": 50}}]}}}}", servers(u, t, 2, 2, 2, 2))).unwrap();
    let _p = start("nameserver", &["c.json"]);
    drop(up(t));
    let q = [0u8, 5, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, b'a', 7, b'e', b'x', b'a', b'm', b'p', b'l', b'e', 3, b'c', b'o', b'm', 0, 0, 1, 0, 1];
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    s.send_to(&q, ("127.0.0.1", u)).unwrap();
    let mut b = [0u8; 600];
    let n = s.recv(&mut b).unwrap();
    // one authority: name, type, class, ttl
    assert!(n > q.len() && b[9] == 1, "no referral");
    let mut i = q.len();
    while b[i] != 0 && b[i] < 0xc0 { i += 1 + b[i] as usize; }
    i += if b[i] == 0 { 1 } else { 2 };
    let ttl = u32::from_be_bytes([b[i + 4], b[i + 5], b[i + 6], b[i + 7]]);
    println!("ttl {}", ttl);
    assert_eq!(ttl, 100);
}
fn tempdir() -> String { let d = format!("{}/t", std::env::current_dir().unwrap().display()); std::fs::create_dir_all(&d).unwrap(); d }
''', bins=True)

plant('C17-tcp-timeouts-crossed', 'C17', [(RSMAIN, 'write_timeout: time::Duration::new(conf.tcp_server.write_timeout, 0),\n        read_timeout: time::Duration::new(conf.tcp_server.read_timeout, 0)', 'write_timeout: time::Duration::new(conf.tcp_server.read_timeout, 0),\n        read_timeout: time::Duration::new(conf.tcp_server.write_timeout, 0)')],
      'a configuration of the resolver with different read and write timeouts for TCP, and a silent client',
      'the resolver program gives a silent client up after the write timeout, not the read timeout, of its configuration',
      PRE + r'''
fn main() {
    let (u, t) = ports();
    std::fs::write("c.json", format!("{{{}, \"resolver\": {{\"max_ns_queried\": 2, \"max_ns_retries\": 2, \"max_cname_redir\": 3, \"read_timeout\": 1, \"write_timeout\": 1, \"cache_conf\": {{\"clean_period\": 10, \"entries_cleaned\": 10}}, \"trace_conf\": {{\"silent\": true, \"verbose\": false, \"color\": false}}}}}}", servers(u, t, 1, 40, 2, 2))).unwrap();
    let _p = start("resolver", &["c.json"]);
    let mut s = up(t);
    s.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    let mut b = [0u8; 1];
    let start = Instant::now();
    let r = s.read(&mut b);
    println!("{:?} after {:?}", r, start.elapsed());
    let _ = s.write_all(&[0]);
    assert!(start.elapsed() < Duration::from_secs(8), "kept");
}
''', bins=True)

plant('C17-zone-refused-ends-well', 'C17', [(NSMAIN, '''            log::error!("Parsing zone files: {:?}", err);
            process::exit(1);''', '''            log::error!("Parsing zone files: {:?}", err);
            return;''')],
      'a zone file which is refused',
      'the nameserver program ends with success when its zones cannot be loaded',
      PRE + r'''
fn main() {
    std::fs::write("z", "@ IN 60 SOA ns.other. mail 1 2 3 4 5\n").unwrap();
    let (u, t) = ports();
    std::fs::write("c.json", format!("{{{}, \"zone\": {{\"zone\": \"example.com.\", \"file\": \"z\", \"starting_ttl\": 60, \"sub_zones\": []}}}}", servers(u, t, 2, 2, 2, 2))).unwrap();
    let mut p = start("nameserver", &["c.json"]);
    let start = Instant::now();
    loop {
        if let Some(s) = p.0.try_wait().unwrap() { assert!(!s.success(), "success"); return; }
        assert!(start.elapsed() < Duration::from_secs(10));
        std::thread::sleep(Duration::from_millis(20));
    }
}
''', bins=True)

plant('C17-attempts-as-servers', 'C17', [(RSMAIN, 'max_ns_queried: conf.resolver.max_ns_queried', 'max_ns_queried: conf.resolver.max_ns_retries')],
      'a configuration of the resolver where the nameservers queried differ from the attempts, and nameservers which do not answer',
      'the resolver program queries as many nameservers as the attempts of its configuration say',
      PRE + r'''
// runs itself again in a network of its own, where the first root servers are
const ROOTS: [&str; 13] = ["198.41.0.4", "199.9.14.201", "192.33.4.12", "199.7.91.13", "192.203.230.10", "192.5.5.241", "192.112.36.4", "198.97.190.53", "192.36.148.17", "192.58.128.30", "193.0.14.129", "199.7.83.42", "202.12.27.33"];
fn main() {
    if std::env::args().count() == 1 {
        let me = std::env::current_exe().unwrap();
        let s = Command::new("unshare").args(["-Urn", "sh", "-c", "ip link set lo up && exec \"$0\" again"]).arg(me).status().unwrap();
        std::process::exit(s.code().unwrap_or(9));
    }
    let mut socks = vec![];
    for r in ROOTS {
        assert!(Command::new("ip").args(["addr", "add", &format!("{}/32", r), "dev", "lo"]).status().unwrap().success());
        socks.push(UdpSocket::bind((r, 53)).unwrap());
    }
    let (u, t) = ports();
    std::fs::write("c.json", format!("{{{}, \"resolver\": {{\"max_ns_queried\": 3, \"max_ns_retries\": 1, \"max_cname_redir\": 3, \"read_timeout\": 1, \"write_timeout\": 1, \"cache_conf\": {{\"clean_period\": 10, \"entries_cleaned\": 10}}, \"trace_conf\": {{\"silent\": true, \"verbose\": false, \"color\": false}}}}}}", servers(u, t, 1, 1, 2, 2))).unwrap();
    let _p = start("resolver", &["c.json"]);
    drop(up(t));
    let q = [0u8, 5, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, b'a', 3, b'c', b'o', b'm', 0, 0, 1, 0, 1];
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
    s.send_to(&q, ("127.0.0.1", u)).unwrap();
    let mut b = [0u8; 600];
    s.recv(&mut b).unwrap();
    let mut n = 0;
    for k in &socks {
        k.set_nonblocking(true).unwrap();
        if k.recv_from(&mut b).is_ok() { n += 1; }
    }
    println!("{} servers asked", n);
    assert_eq!(n, 3);
}
''', bins=True)

plant('C15-udp-end-stops-wait', 'C15', [('src/shared/net/setup.rs', '''        tx_clone.send(()).unwrap();
    });

    // Setup tcp''', '''        let _ = tx_clone;
    });

    // Setup tcp''')],
      'a UDP server which ends (its address cannot be bound) while the TCP server serves',
      'start_servers does not notice that the UDP server ended: it goes on without it',
      r'''
use ariadne_dns::shared::net::*;
use std::net::UdpSocket;
use std::sync::Arc;
use std::time::Duration;
struct H;
impl DnsHandler for H { fn handle_request<R: DnsRead, W: DnsWrite>(&self, _: R, _: W) {} }
fn main() {
    let taken = UdpSocket::bind("127.0.0.1:0").unwrap();
    let u = taken.local_addr().unwrap().port();
    let t = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    let s = Duration::from_secs(1);
    let h = std::thread::spawn(move || start_servers(Arc::new(H),
        UdpParams { address: "127.0.0.1".into(), port: u, write_timeout: s, threads: 1 },
        TcpParams { address: "127.0.0.1".into(), port: t, write_timeout: s, read_timeout: s, threads: 1 }));
    for _ in 0..600 {
        if h.is_finished() { return; }
        std::thread::sleep(Duration::from_millis(20));
    }
    panic!("the servers go on");
}
''')
