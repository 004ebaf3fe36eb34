H, RH = "src/nameserver/handler.rs", "src/resolver/handler.rs"
Q, R, UT = "src/resolver/back_end/requests.rs", "src/resolver/back_end/recursive.rs", "src/resolver/back_end/utils.rs"
UP = '''use ariadne_dns::resolver::*;
use ariadne_dns::shared::{dns, dns::{Message, Name, Record, RecordType, RespCode}};
use std::net::{Ipv4Addr, UdpSocket};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;
static BASE: OnceLock<u8> = OnceLock::new();
static LOG: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());
fn ip(i: usize) -> [u8; 4] { [127, *BASE.get().unwrap(), 78, i as u8 + 1] }
fn name(s: &str) -> Name { Name::from_string(s).unwrap() }
fn a(n: &str, ttl: u32, address: [u8; 4]) -> Record { Record::A { node: name(n), class: dns::Class::IN, ttl, data_len: 4, address } }
fn ns(z: &str, h: &str) -> Record { Record::NS { node: name(z), class: dns::Class::IN, ttl: 3600, data_len: 0, name: name(h) } }
fn cname(n: &str, ttl: u32, t: &str) -> Record { Record::CNAME { node: name(n), class: dns::Class::IN, ttl, data_len: 0, name: name(t) } }
type Parts = (RespCode, bool, Vec<Record>, Vec<Record>, Vec<Record>);
fn says(v: Vec<Record>) -> Parts { (RespCode::NoError, true, v, vec![], vec![]) }
fn refers(v: Vec<Record>, w: Vec<Record>) -> Parts { (RespCode::NoError, false, vec![], v, w) }
fn asked(i: usize) -> usize { LOG.lock().unwrap().iter().filter(|x| x.0 == i).count() }
/// Servers 0..n on loopback: each question is given to f with the number of the server, and the message sent may be changed by g.
fn upstream(n: usize, f: impl Fn(usize, &str, RecordType) -> Parts + Send + Sync + 'static, g: impl Fn(usize, &mut Message) + Send + Sync + 'static) {
    let both = Arc::new((f, g));
    for base in 1..100u8 {
        let l: std::io::Result<Vec<UdpSocket>> = (0..n).map(|i| UdpSocket::bind((Ipv4Addr::new(127, base, 78, i as u8 + 1), 53))).collect();
        match l {
            Ok(l) => {
                BASE.set(base).unwrap();
                for (i, s) in l.into_iter().enumerate() {
                    let both = Arc::clone(&both);
                    std::thread::spawn(move || {
                        let mut b = [0u8; 2048];
                        loop {
                            let (k, from) = s.recv_from(&mut b).unwrap();
                            let mut m = Message::decode_from_bytes(&b[..k]).unwrap();
                            let (n, t) = (m.questions[0].node.to_string(), m.questions[0].record_type);
                            LOG.lock().unwrap().push((i, n.clone()));
                            let (code, aa, x, y, z) = both.0(i, &n, t);
                            m.header.query_resp = true;
                            m.header.resp_code = code;
                            m.header.auth_answer = aa;
                            m.header.answers_count = x.len() as u16;
                            m.header.authorities_count = y.len() as u16;
                            m.header.additionals_count = z.len() as u16;
                            m.answers = x;
                            m.authorities = y;
                            m.additionals = z;
                            both.1(i, &mut m);
                            s.send_to(&m.encode_to_bytes().unwrap(), from).unwrap();
                        }
                    });
                }
                return;
            }
            Err(e) if e.kind() == std::io::ErrorKind::AddrInUse => {}
            Err(e) => {
                if std::env::var("DEMO_NET").is_ok() { panic!("{:?}", e); }
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("unshare").args(["-Urn", "sh", "-c", "ip link set lo up && exec \\"$0\\""])
                    .arg(std::env::current_exe().unwrap()).env("DEMO_NET", "1").exec();
                panic!("{:?}", e);
            }
        }
    }
}
/// A resolver which knows that server 0 serves the zone t.
fn resolver(p: ResolverParams) -> (Resolver, Arc<RecordsCache>) {
    let c: Arc<RecordsCache> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(600), max_cleaned: 10 }));
    let day = Duration::from_secs(86400);
    c.set((name("t."), RecordType::NS), day, vec![ns("t.", "k.t.")]);
    c.set((name("k.t."), RecordType::A), day, vec![a("k.t.", 3600, ip(0))]);
    let r = Resolver::new(&c, p, TraceParams { silent: true, verbose: false, color: false });
    (r, c)
}
'''

plant("C11-first-ttl", "C11", [(R, "let min_ttl = *records.iter().map(|rec| rec.ttl()).min().unwrap();", "let min_ttl = *records[0].ttl();")],
    "an answer whose records have different times to live, the first one not the lowest",
    "records are served from the cache after the lowest time to live has passed",
    UP + '''fn main() {
    upstream(1, |_, n, _| says(vec![a(n, 3600, [10, 0, 0, 1]), a(n, 1, [10, 0, 0, 2])]), |_, _| ());
    let (r, _) = resolver(ResolverParams::default());
    r.new_lookup(&name("w.t."), RecordType::A).perform().0.unwrap();
    let (l, _) = r.new_lookup(&name("w.t."), RecordType::A).perform();
    assert!(l.unwrap().0.iter().all(|x| *x.ttl() <= 1), "a time to live above the lowest one");
}
''')
plant("C11-mixed-glue", "C11", [(R, """        if next_ns.a_records.len() > 0 {
            save_records_in_cache(cache, next_ns.a_records);
        }
    }
""", """        addresses.extend(next_ns.a_records);
    }
    if !addresses.is_empty() {
        save_records_in_cache(cache, addresses);
    }
"""), (R, "    let mut ns_records = vec![];\n", "    let mut ns_records = vec![];\n    let mut addresses = vec![];\n")],
    "a referral to two nameservers which both have addresses, and a lookup of the first one's address",
    "the address of a nameserver is stored and served under the name of another one",
    UP + '''fn main() {
    upstream(3, |i, n, _| match i {
        0 => refers(vec![ns("x.t.", "n1.x.t."), ns("x.t.", "n2.x.t.")], vec![a("n1.x.t.", 3600, ip(1)), a("n2.x.t.", 3600, ip(2))]),
        _ => says(vec![a(n, 60, [10, 0, 0, 1])]),
    }, |_, _| ());
    let (r, c) = resolver(ResolverParams::default());
    r.new_lookup(&name("w.x.t."), RecordType::A).perform().0.unwrap();
    for h in ["n1.x.t.", "n2.x.t."] {
        let l = c.get_clone(&(name(h), RecordType::A)).expect("no address").1;
        assert!(l.iter().all(|x| *x.node() == name(h)), "{:?}", l);
    }
}
''')
plant("C12-same-zone", "C12", [(Q, "if ns_zone.as_ref().len() <= current_zone.len() {", "if ns_zone.as_ref().len() < current_zone.len() {")],
    "a nameserver which refers to nameservers of its own zone",
    "the delegation is followed though it comes no closer, for ever",
    UP + '''fn main() {
    upstream(3, |i, _, _| match i {
        0 => refers(vec![ns("x.t.", "n1.x.t.")], vec![a("n1.x.t.", 3600, ip(1))]),
        // the two servers of x.t. refer to each other
        _ => { let h = format!("n{}.x.t.", 3 - i); refers(vec![ns("x.t.", &h)], vec![a(&h, 3600, ip(3 - i))]) }
    }, |_, _| ());
    let (r, _) = resolver(ResolverParams::default());
    std::thread::spawn(move || { let _ = r.new_lookup(&name("w.x.t."), RecordType::A).perform(); });
    std::thread::sleep(Duration::from_secs(2));
    assert!(asked(1) + asked(2) <= 10, "{} queries", asked(1) + asked(2));
}
''')
plant("C12-sub-zones-forgotten", "C12", [(R, "let mut zones = self.previous_zones.clone();", "let mut zones = Vec::with_capacity(self.previous_zones.len() + 1);")],
    "zones whose nameservers are in other zones whose nameservers are in them",
    "nested lookups without end",
    UP + '''fn main() {
    // x.t. is served by n.y.t., y.t. by n.x.t.
    upstream(1, |_, n, _| if n.ends_with("x.t.") { refers(vec![ns("x.t.", "n.y.t.")], vec![]) } else { refers(vec![ns("y.t.", "n.x.t.")], vec![]) }, |_, _| ());
    let (r, _) = resolver(ResolverParams { read_timeout: Duration::from_millis(300), ..Default::default() });
    std::thread::spawn(move || { let _ = r.new_lookup(&name("w.x.t."), RecordType::A).perform(); std::process::exit(0); });
    std::thread::sleep(Duration::from_secs(20));
    panic!("the lookup does not end");
}
''')
plant("C12-any-authority", "C12", [(Q, "let is_auth = is_nameserver_authoritative_over_node(rec.node(), node);", "let is_auth = is_nameserver_authoritative_over_node(zone, node);")],
    "a referral which also names a zone which does not contain the searched name",
    "the searched name is asked of a nameserver of another zone",
    UP + '''fn main() {
    upstream(2, |i, n, _| match i {
        0 => refers(vec![ns("other.t.", "n1.t.")], vec![a("n1.t.", 3600, ip(1))]),
        _ => says(vec![a(n, 60, [10, 6, 6, 6])]),
    }, |_, _| ());
    let (r, _) = resolver(ResolverParams::default());
    let (l, _) = r.new_lookup(&name("w.x.t."), RecordType::A).perform();
    assert!(l.is_err() && asked(1) == 0, "answered by a nameserver of other.t.");
}
''')
plant("C13-cached-end", "C13", [(R, """                let mut answers = mem::take(&mut self.previous_cnames);
                answers.extend(cached_answers);
                return Ok(LookupResponse(answers, vec![], vec![], false));""", """                return Ok(LookupResponse(cached_answers, vec![], vec![], false));""")],
    "an alias whose target is in the cache",
    "the CNAME records are missing from the answer",
    UP + '''fn main() {
    upstream(1, |_, n, _| if n == "al.t." { says(vec![cname(n, 60, "w.t.")]) } else { says(vec![a(n, 60, [10, 0, 0, 1])]) }, |_, _| ());
    let (r, _) = resolver(ResolverParams::default());
    r.new_lookup(&name("w.t."), RecordType::A).perform().0.unwrap();
    let l = r.new_lookup(&name("al.t."), RecordType::A).perform().0.unwrap();
    assert!(l.0.len() == 2 && *l.0[0].node() == name("al.t."), "{:?}", l.0);
}
''')
plant("C13-one-more", "C13", [(R, "for _ in 0..self.conf.max_cname_redir {", "for _ in 0..=self.conf.max_cname_redir {")],
    "a chain of exactly max_cname_redir aliases",
    "the chain is answered instead of refused",
    UP + '''fn main() {
    upstream(1, |_, n, _| match n { "a.t." => says(vec![cname(n, 60, "b.t.")]), "b.t." => says(vec![cname(n, 60, "c.t.")]), _ => says(vec![a(n, 60, [10, 0, 0, 1])]) }, |_, _| ());
    let (r, _) = resolver(ResolverParams { max_cname_redir: 2, ..Default::default() });
    let (l, _) = r.new_lookup(&name("a.t."), RecordType::A).perform();
    assert!(l.is_err(), "{:?}", l);
    let l = r.new_lookup(&name("b.t."), RecordType::A).perform().0.unwrap();
    assert!(l.0.len() == 2);
}
''')
plant("C13-order", "C13", [(R, """                    let mut cname_answers = mem::take(&mut self.previous_cnames);
                    cname_answers.extend(answers);
                    return Ok(LookupResponse(cname_answers, vec![], additionals, false));""", """                    let mut answers = answers;
                    answers.append(&mut self.previous_cnames);
                    return Ok(LookupResponse(answers, vec![], additionals, false));""")],
    "an alias whose target is found by asking a nameserver",
    "the records of the target come before the aliases",
    UP + '''fn main() {
    upstream(1, |_, n, _| if n == "al.t." { says(vec![cname(n, 60, "w.t.")]) } else { says(vec![a(n, 60, [10, 0, 0, 1])]) }, |_, _| ());
    let (r, _) = resolver(ResolverParams::default());
    let l = r.new_lookup(&name("al.t."), RecordType::A).perform().0.unwrap();
    assert!(l.0.len() == 2 && *l.0[0].node() == name("al.t."), "{:?}", l.0);
}
''')
plant("C14-swapped-record", "C14", [(UT, "start_from = i;", "start_from = i + 1;")],
    "an answer with three records of the searched name and type",
    "some of the records of the response are missing from the answer",
    UP + '''fn main() {
    upstream(1, |_, n, _| says((1..4).map(|k| a(n, 60, [10, 0, 0, k])).collect()), |_, _| ());
    let (r, _) = resolver(ResolverParams::default());
    let l = r.new_lookup(&name("w.t."), RecordType::A).perform().0.unwrap();
    assert!(l.0.len() == 3, "{:?}", l.0);
}
''')
plant("C14-denial", "C14", [(Q, "dns::RespCode::NxDomain if dns_resp.header.auth_answer => {", "dns::RespCode::NxDomain if dns_resp.header.auth_answer || dns_resp.header.recursion_available => {")],
    "a nameserver which says NxDomain without authority but with recursion",
    "the name is denied though no authoritative server said so",
    UP + '''fn main() {
    upstream(1, |_, _, _| (RespCode::NxDomain, false, vec![], vec![], vec![]), |_, m| m.header.recursion_available = true);
    let (r, _) = resolver(ResolverParams::default());
    let (l, _) = r.new_lookup(&name("w.t."), RecordType::A).perform();
    assert!(l.is_err(), "{:?}", l);
}
''')
plant("C14-attempts", "C14", [(Q, "        if i >= next_ns_request.retries {\n            return Err(err.unwrap());\n        }\n", ""), (Q, "            Err(er) => err = Some(er),\n        };\n        i += 1;", """            // Other errors are not going to change.
            Err(er @ LookupErr::MalformedResp(_)) => err = er,
            Err(er) => return Err(er),
        };
        i += 1;
        if i > next_ns_request.retries {
            return Err(err);
        }"""), (Q, "    let mut err = None;\n    let mut i = 0;", "    let mut err;\n    let mut i = 0;")],
    "a nameserver whose responses never fit",
    "one attempt more than configured",
    UP + '''fn main() {
    upstream(1, |_, n, _| says(vec![a(n, 60, [10, 0, 0, 1])]), |_, m| m.header.id ^= 1);
    let (r, _) = resolver(ResolverParams { max_upd_retries: 2, ..Default::default() });
    let (l, _) = r.new_lookup(&name("w.t."), RecordType::A).perform();
    assert!(l.is_err() && asked(0) == 2, "{} attempts", asked(0));
}
''')

TWO = '''use ariadne_dns::nameserver::{parse_zone_files, NameserverHandler, ParsingParams};
use ariadne_dns::resolver::*;
use ariadne_dns::shared::{dns, dns::{Message, Name, RespCode}, net::*};
use std::sync::{Arc, Mutex};
struct In(Vec<u8>);
impl DnsRead for In {
    fn read(self) -> DnsReadResult {
        match Message::decode_from_bytes(&self.0) {
            Ok(m) => DnsReadResult::FullMessage(m),
            Err(e) => match dns::Header::decode_from_bytes(&self.0) {
                Ok(h) => DnsReadResult::HeaderOnly(h, e),
                Err(h) => DnsReadResult::ParseErr(e, h),
            },
        }
    }
}
struct Out(Arc<Mutex<Vec<Message>>>);
impl DnsWrite for Out { fn reply(self, m: Message) -> std::io::Result<()> { self.0.lock().unwrap().push(m); Ok(()) } }
fn ask(h: &impl DnsHandler, b: &[u8]) -> Message {
    let out = Arc::new(Mutex::new(vec![]));
    h.handle_request(In(b.to_vec()), Out(Arc::clone(&out)));
    let mut v = out.lock().unwrap();
    assert!(v.len() == 1, "{} replies", v.len());
    v.pop().unwrap()
}
fn nameserver() -> NameserverHandler {
    let f = std::env::temp_dir().join(format!("zone.{}", std::process::id()));
    std::fs::write(&f, "@ 100 IN SOA ns mail 1 2 3 4 50\\n@ NS ns.other.\\n").unwrap();
    let r = parse_zone_files(ParsingParams { file_path: f.display().to_string(), zone: Name::from_string("example.").unwrap(), starting_ttl: 60, sub_zones: vec![] });
    std::fs::remove_file(&f).unwrap();
    NameserverHandler(r.unwrap_or_else(|e| panic!("{:?}", e)))
}
/// No redirections: every lookup fails at once.
fn resolver() -> ResolverHandler {
    let c: Arc<RecordsCache> = Arc::new(Cache::new(CacheConf::default()));
    ResolverHandler(Resolver::new(&c, ResolverParams { max_cname_redir: 0, ..Default::default() }, TraceParams { silent: true, verbose: false, color: false }))
}
'''
plant("C07-no-question", "C07", [(RH, """    let dns::Question { node, record_type: t, .. } = &dns_request.questions[0];
    log::info!("[{}] Start handling request: {}, type {:?}.", dns_request.id(), node, t);
    log::debug!""", """    log::debug!"""), (RH, """    if let Err(err) = validate_dns_request(&dns_request) {
""", """    let dns::Question { node, record_type: t, .. } = &dns_request.questions[0];
    log::info!("[{}] Start handling request: {}, type {:?}.", dns_request.id(), node, t);
    if let Err(err) = validate_dns_request(&dns_request) {
""")],
    "a request without questions", "the handler panics instead of replying",
    TWO + '''fn main() {
    let b = [1, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    assert!(matches!(ask(&nameserver(), &b).header.resp_code, RespCode::FormErr));
    let m = ask(&resolver(), &b);
    assert!(matches!(m.header.resp_code, RespCode::FormErr));
}
''')
plant("C07-additionals", "C07", [(H, """    resp_header.questions_count = dns_req.questions.len() as u16;
    resp_header.answers_count = 0;
    resp_header.authorities_count = 0;
    resp_header.additionals_count = 0;
""", """    resp_header.questions_count = dns_req.questions.len() as u16;
    resp_header.answers_count = 0;
    resp_header.authorities_count = 0;
""")],
    "a refused query with an additional record", "the reply announces a record it does not carry",
    TWO + '''fn main() {
    let mut b = vec![1, 2, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1];
    b.extend([1, b'a', 0, 0, 1, 0, 1]);
    b.extend([1, b'x', 0, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4]);
    let m = ask(&nameserver(), &b);
    assert!(matches!(m.header.resp_code, RespCode::Refused));
    assert!(Message::decode_from_bytes(&m.encode_to_bytes().unwrap()).is_ok(), "{:?}", m.header);
}
''')
plant("C07-class-code", "C07", [(RH, "        dns::ParsingErr::UnsupportedClass(_) => dns::RespCode::NotImp,\n", "")],
    "a query of a class which is not supported", "FormErr instead of NotImp",
    TWO + '''fn main() {
    let mut b = vec![1, 2, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0];
    b.extend([1, b'a', 0, 0, 1, 0, 2]);
    assert!(matches!(ask(&nameserver(), &b).header.resp_code, RespCode::NotImp));
    let m = ask(&resolver(), &b);
    assert!(matches!(m.header.resp_code, RespCode::NotImp), "{:?}", m.header);
}
''')
