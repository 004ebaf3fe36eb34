PL = "/verif/tools/plants/"
def block(f, name):
    s = open(PL + f).read()
    i = s.index(name + " = '''") + len(name) + 6
    return eval("'''" + s[i:s.index("'''", i)] + "'''")
UP = block("p8.py", "UP"); ASK = block("p6.py", "ASK")
N, B, RE, M = "src/shared/dns/name.rs", "src/shared/buffer/buffer.rs", "src/shared/dns/records.rs", "src/shared/dns/message.rs"
ZA, H, RH = "src/nameserver/zones/parser_auth.rs", "src/nameserver/handler.rs", "src/resolver/handler.rs"
TP, CL = "src/shared/thread_pool.rs", "src/shared/dns/class.rs"

plant("C02-pointer-bits", "C02", [(N, "const POINTER_MASK: u16 = 0b00111111_11111111;", "const POINTER_MASK: u16 = 0b00011111_11111111;")],
"a compression pointer to a name past the first 8192 bytes of a message", "the name of another place of the message is read",
'''use ariadne_dns::shared::dns;
fn main() {
    let mut b = vec![0u8; 12];
    b[2] = 0x80;
    b[7] = 40;
    let rec = |b: &mut Vec<u8>, name: &[u8], n: usize| {
        b.extend_from_slice(name);
        b.extend([0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, n as u8]);
    };
    // big TXT records move the end of the message past 8192
    for _ in 0..38 {
        b.extend([1, b'a', 0, 0, 16, 0, 1, 0, 0, 0, 9, 1, 0, 255]);
        b.extend(vec![b'x'; 255]);
    }
    let at = b.len();
    assert!(at > 0x2000 && at < 0x4000);
    rec(&mut b, &[1, b'z', 2, b'f', b'r', 0], 1);
    rec(&mut b, &[0xc0 | (at >> 8) as u8, at as u8], 2);
    let m = dns::Message::decode_from_bytes(&b).unwrap();
    assert!(m.answers[39].node().as_ref() == "z.fr.", "{:?}", m.answers[39]);
}
''')
plant("C19-read-partial", "C19", [(B, '''        if self.r_pos + 32 > self.last {
            None
        } else {
            let first = (self.read_bits(8).unwrap() as u32) << 24;
            let second = (self.read_bits(8).unwrap() as u32) << 16;
            let third = (self.read_bits(8).unwrap() as u32) << 8;
            let fourth = self.read_bits(8).unwrap() as u32;
            Some(first | second | third | fourth)
        }
''', '''        let high = self.read_u16()? as u32;
        let low = self.read_u16()? as u32;
        Some(high << 16 | low)
''')],
"reading 32 bits where only 16 to 31 are left", "a read which gives nothing moves the read position",
'''use ariadne_dns::shared::buffer::BitsBuf;
fn main() {
    let mut b = BitsBuf::from_raw_bytes(&[1, 2, 3]);
    assert!(b.read_u32().is_none());
    assert!(b.read_pos() == 0, "moved to {}", b.read_pos());
}
''')
plant("C03-lowercase", "C03", [(N, "            let n_bytes = n.as_bytes();\n", "            let n_bytes = n.as_bytes().to_ascii_lowercase();\n")],
"a name with upper case letters which is encoded", "decoding gives another name than the one encoded",
'''use ariadne_dns::shared::{buffer::BitsBuf, dns::Name};
fn main() {
    let n = Name::from_string("aB.Example.").unwrap();
    let m = Name::from_bytes(&mut BitsBuf::from_raw_bytes(&n.to_bytes())).unwrap();
    assert!(n == m, "{} {}", n, m);
}
''')
plant("C20-mx-clamp", "C20", [(ZA, "num.try_into().or(Err(ParseErr::MalformedData(num.to_string())))?", "num.try_into().unwrap_or(u16::MAX)")],
"an MX record with a preference of more than 16 bits", "the record is loaded with another preference instead of refused",
ASK.replace("    NameserverHandler(r.unwrap", "    if r.is_err() { std::process::exit(0) }\n    NameserverHandler(r.unwrap") + '''fn main() {
    let h = load(&[("main", &format!("{}a MX 70000 b\\n", TOP))], &[]);
    panic!("{:?}", ask(&h, "a.example.", RecordType::MX));
}
''')
plant("C07-cached-authorities", "C07", [(RH, '''    resp_header.questions_count = dns_req.questions.len() as u16;
    resp_header.answers_count = 0;
    resp_header.authorities_count = 0;
    resp_header.additionals_count = 0;
''', '''    resp_header.questions_count = dns_req.questions.len() as u16;
    resp_header.answers_count = 0;
    resp_header.authorities_count = 0;
''')],
"a request with additional records whose lookup fails, sent to the resolver", "the reply counts additional records which it does not carry",
'''use ariadne_dns::resolver::*;
use ariadne_dns::shared::{dns, dns::{Name, RecordType}, net::*};
use std::sync::{Arc, Mutex};
struct In(dns::Message);
impl DnsRead for In { fn read(self) -> DnsReadResult { DnsReadResult::FullMessage(self.0) } }
struct Out(Arc<Mutex<Vec<dns::Message>>>);
impl DnsWrite for Out { fn reply(self, m: dns::Message) -> std::io::Result<()> { self.0.lock().unwrap().push(m); Ok(()) } }
fn main() {
    let c: Arc<RecordsCache> = Arc::new(Cache::new(CacheConf { clean_period: std::time::Duration::from_secs(60), max_cleaned: 10 }));
    let r = Resolver::new(&c, ResolverParams::default(), TraceParams { silent: true, verbose: false, color: false });
    let n = |s: &str| Name::from_string(s).unwrap();
    let q = dns::Question { node: n("a.t."), record_type: RecordType::A, class: dns::Class::IN };
    let rec = dns::Record::A { node: n("x."), class: dns::Class::IN, ttl: 1, data_len: 4, address: [1, 2, 3, 4] };
    let mut header = dns::Header::default();
    header.query_resp = true;
    header.questions_count = 1;
    header.additionals_count = 1;
    let m = dns::Message { header, questions: vec![q], answers: vec![], authorities: vec![], additionals: vec![rec] };
    let out = Arc::new(Mutex::new(vec![]));
    ResolverHandler(r).handle_request(In(m), Out(Arc::clone(&out)));
    let v = out.lock().unwrap();
    assert!(v.len() == 1 && v[0].header.additionals_count as usize == v[0].additionals.len(), "{:?}", v);
}
''')
