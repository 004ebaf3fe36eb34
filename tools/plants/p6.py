H, T, U = "src/nameserver/handler.rs", "src/shared/net/tcp_server.rs", "src/shared/net/udp_server.rs"
ASK = '''use ariadne_dns::nameserver::{parse_zone_files, NameserverHandler, ParsingParams, SubParsingParams};
use ariadne_dns::shared::{dns, dns::{Name, RecordType}, net::*};
use std::sync::{Arc, Mutex};
fn name(s: &str) -> Name { Name::from_string(s).unwrap() }
fn load(files: &[(&str, &str)], subs: &[&str]) -> NameserverHandler {
    let d = std::env::temp_dir().join(format!("zones.{}", std::process::id()));
    let _ = std::fs::create_dir(&d);
    let p = |f: &str| format!("{}/{}", d.display(), f);
    for (f, t) in files { std::fs::write(p(f), t).unwrap(); }
    let r = parse_zone_files(ParsingParams { file_path: p("main"), zone: name("example."), starting_ttl: 60,
        sub_zones: subs.iter().map(|s| SubParsingParams { file_path: p(s), zone: name(&format!("{}.example.", s)), starting_ttl: 60, min_ttl: 10 }).collect() });
    let _ = std::fs::remove_dir_all(&d);
    NameserverHandler(r.unwrap_or_else(|e| panic!("{:?}", e)))
}
struct In(dns::Message);
impl DnsRead for In { fn read(self) -> DnsReadResult { DnsReadResult::FullMessage(self.0) } }
struct Out(Arc<Mutex<Vec<dns::Message>>>);
impl DnsWrite for Out { fn reply(self, m: dns::Message) -> std::io::Result<()> { self.0.lock().unwrap().push(m); Ok(()) } }
fn ask(h: &NameserverHandler, n: &str, t: RecordType) -> dns::Message {
    let mut header = dns::Header::default();
    header.questions_count = 1;
    let q = dns::Question { node: name(n), record_type: t, class: dns::Class::IN };
    let m = dns::Message { header, questions: vec![q], answers: vec![], authorities: vec![], additionals: vec![] };
    let out = Arc::new(Mutex::new(vec![]));
    h.handle_request(In(m), Out(Arc::clone(&out)));
    let mut v = out.lock().unwrap();
    assert!(v.len() == 1, "{} replies", v.len());
    v.pop().unwrap()
}
const TOP: &str = "@ 100 IN SOA ns mail 1 2 3 4 50\\n@ NS ns.other.\\n";
'''

plant("C06-count-byte", "C06", [(H, "resp_header.answers_count = searched_records.len() as u16;", "resp_header.answers_count = (searched_records.len() as u8).into();")],
    "a name with more than 255 records of a type",
    "the count of the answers is not the one of the records in the reply",
    ASK + '''fn main() {
    let mut z = TOP.to_string();
    for i in 0..300 { z += &format!("a A 1.2.{}.{}\\n", i / 256, i % 256); }
    let h = load(&[("main", &z)], &[]);
    let m = ask(&h, "a.example.", RecordType::A);
    assert!(m.answers.len() == 300 && m.header.answers_count == 300, "count {}", m.header.answers_count);
}
''')

plant("C06-glue-same-zone", "C06", [(H, "search_a_additionals_for_subzone_ns(ns_record.ns_data(), &zones.sub_zones)", "search_a_additionals_for_subzone_ns(ns_record.ns_data(), std::slice::from_ref(sub_zone))")],
    "a sub zone with a nameserver inside another sub zone",
    "the address of that nameserver is missing from the referral",
    ASK + '''fn main() {
    let h = load(&[("main", TOP), ("a", "@ NS ns.b.example.\\n"), ("b", "@ NS ns\\nns A 1.2.3.4\\n")], &["a", "b"]);
    assert!(ask(&h, "x.b.example.", RecordType::A).additionals.len() == 1);
    assert!(ask(&h, "x.a.example.", RecordType::A).additionals.len() == 1, "no address for ns.b.example.");
}
''')

plant("C06-cname-at-type", "C06", [(H, """            Some(cname) => searched_records = cname.clone(),
            None => {""", """            Some(cname) if *record_type != dns::RecordType::NS => searched_records = cname.clone(),
            _ => {""")],
    "a query of the NS records of an alias",
    "NxDomain instead of the CNAME",
    ASK + '''fn main() {
    let h = load(&[("main", &format!("{}al CNAME b\\n", TOP))], &[]);
    assert!(ask(&h, "al.example.", RecordType::A).answers.len() == 1);
    assert!(ask(&h, "al.example.", RecordType::NS).answers.len() == 1, "no alias");
}
''')

NET = '''use ariadne_dns::shared::{dns, dns::{Name, RecordType}, net::*};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream, UdpSocket};
use std::sync::{Arc, Mutex};
use std::time::Duration;
static SEEN: Mutex<Vec<String>> = Mutex::new(Vec::new());
struct Echo;
impl DnsHandler for Echo {
    fn handle_request<R: DnsRead, W: DnsWrite>(&self, req: R, resp: W) {
        match req.read() {
            DnsReadResult::FullMessage(mut m) => {
                SEEN.lock().unwrap().push(format!("{} {} {}", m.questions[0].node, m.questions.len(), m.additionals.len()));
                m.header.query_resp = true;
                let _ = resp.reply(m);
            }
            DnsReadResult::HeaderOnly(..) => SEEN.lock().unwrap().push("header".into()),
            DnsReadResult::ParseErr(..) => SEEN.lock().unwrap().push("nothing".into()),
            DnsReadResult::IoErr(..) => SEEN.lock().unwrap().push("io".into()),
        }
    }
}
fn start() -> (u16, u16) {
    let u = UdpSocket::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    let t = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    let s = Duration::from_secs(2);
    std::thread::spawn(move || start_servers(Arc::new(Echo),
        UdpParams { address: "127.0.0.1".into(), port: u, write_timeout: s, threads: 2 },
        TcpParams { address: "127.0.0.1".into(), port: t, read_timeout: s, write_timeout: s, threads: 2 }));
    std::thread::sleep(Duration::from_millis(400));
    (u, t)
}
/// A request with n additional records of 250 bytes.
fn request(n: usize) -> Vec<u8> {
    let mut header = dns::Header::default();
    header.questions_count = 1;
    header.additionals_count = n as u16;
    let q = dns::Question { node: Name::from_string("a.example.").unwrap(), record_type: RecordType::A, class: dns::Class::IN };
    let r = dns::Record::TXT { node: Name::from_string("x.").unwrap(), class: dns::Class::IN, ttl: 5, data_len: 0, txts: vec!["y".repeat(236)] };
    dns::Message { header, questions: vec![q], answers: vec![], authorities: vec![], additionals: (0..n).map(|_| r.clone()).collect() }.encode_to_bytes().unwrap()
}
fn tcp(port: u16, b: &[u8], cuts: &[usize]) -> Vec<u8> {
    let mut s = TcpStream::connect(("127.0.0.1", port)).unwrap();
    s.set_nodelay(true).unwrap();
    s.set_read_timeout(Some(Duration::from_secs(4))).unwrap();
    let mut f = vec![(b.len() >> 8) as u8, b.len() as u8];
    f.extend(b);
    let mut at = 0;
    for c in cuts.iter().chain(&[f.len()]) {
        if s.write_all(&f[at..*c]).is_err() { break; }
        std::thread::sleep(Duration::from_millis(60));
        at = *c;
    }
    let mut out = vec![];
    let _ = s.read_to_end(&mut out);
    out
}
'''

plant("C15-short-read", "C15", [(T, """        let mut buf = vec![0_u8; req_len as usize];
        if let Err(err) = self.0.read_exact(&mut buf) {
            return DnsReadResult::IoErr(err);
        };
""", """        let mut buf = Vec::with_capacity(req_len as usize);
        let mut body = (&mut self.0).take(req_len as u64);
        while buf.len() < 12 {
            let mut part = vec![0_u8; req_len as usize];
            match body.read(&mut part) {
                Ok(0) => return DnsReadResult::IoErr(io::ErrorKind::UnexpectedEof.into()),
                Ok(n) => buf.extend_from_slice(&part[..n]),
                Err(err) => return DnsReadResult::IoErr(err),
            }
        }
""")],
    "a TCP request which arrives in parts split after its header",
    "only the first part is read",
    NET + '''fn main() {
    let (_, t) = start();
    let b = request(0);
    assert!(tcp(t, &b, &[1, 5]).len() == b.len() + 2);
    let out = tcp(t, &b, &[20]);
    assert!(out.len() == b.len() + 2, "split request: reply of {} bytes", out.len());
}
''')

plant("C15-length-sign", "C15", [(T, "let req_len = ((buf[0] as u16) << 8) | (buf[1] as u16);", "let req_len = (i16::from_be_bytes(buf)).max(0) as u16;")],
    "a TCP request longer than 32767 bytes",
    "the request is not read",
    NET + '''fn main() {
    let (_, t) = start();
    let b = request(100);
    assert!(tcp(t, &b, &[]).len() == b.len() + 2);
    let b = request(200);
    let out = tcp(t, &b, &[]);
    assert!(out.len() == b.len() + 2, "request of {} bytes: reply of {} bytes", b.len(), out.len());
}
''')

plant("C15-udp-stale-buffer", "C15", [(U, """    loop {
        let mut buffer = [0; dns::MAX_UDP_LEN_BYTES];
""", """    let mut buffer = [0; dns::MAX_UDP_LEN_BYTES];
    let mut n_read = 0;
    loop {
"""), (U, """        let (n_read, src_addr) = match socket.recv_from(&mut buffer) {
            Ok(read_data) => read_data,
            Err(err) => {
                log::warn!("Cannot recv_from socket: {}", err);
                continue;
            }
        };
""", """        let src_addr = match socket.recv_from(&mut buffer) {
            Ok((n, addr)) => {
                n_read = n_read.max(n);
                addr
            }
            Err(err) => {
                log::warn!("Cannot recv_from socket: {}", err);
                continue;
            }
        };
""")],
    "a datagram cut short after a longer one",
    "the request is completed with the bytes of the one before",
    NET + '''fn main() {
    let (u, _) = start();
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.set_read_timeout(Some(Duration::from_millis(700))).unwrap();
    let b = request(0);
    let mut buf = [0; 600];
    s.send_to(&b, ("127.0.0.1", u)).unwrap();
    assert!(s.recv(&mut buf).unwrap() == b.len());
    s.send_to(&b[..20], ("127.0.0.1", u)).unwrap();
    assert!(s.recv(&mut buf).is_err(), "a reply to the request before");
}
''')
