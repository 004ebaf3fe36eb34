PL = "/verif/tools/plants/"
def block(f, name):
    s = open(PL + f).read()
    i = s.index(name + " = '''") + len(name) + 6
    return eval("'''" + s[i:s.index("'''", i)] + "'''")
UP = block("p8.py", "UP"); ASK = block("p6.py", "ASK")
Q, R, UT = "src/resolver/back_end/requests.rs", "src/resolver/back_end/recursive.rs", "src/resolver/back_end/utils.rs"
CA, H = "src/resolver/back_end/cache.rs", "src/nameserver/handler.rs"
HD, RE = "src/shared/dns/header.rs", "src/shared/dns/records.rs"

plant("C11-farthest-zone", "C11", [(R, "let cached_next_nss: Option<Vec<NextSubzoneNs>> = domains.iter().find_map(|name| {", "let cached_next_nss: Option<Vec<NextSubzoneNs>> = domains.iter().rev().find_map(|name| {")],
"a second lookup in a zone whose nameservers the cache knows, and also those of a zone above", "the nameservers of the zone above are asked again",
UP + '''fn main() {
    upstream(2, |i, n, _| match i {
        0 => refers(vec![ns("x.t.", "n1.x.t.")], vec![a("n1.x.t.", 3600, ip(1))]),
        _ => says(vec![a(n, 60, [10, 0, 0, 1])]),
    }, |_, _| ());
    let (r, _) = resolver(ResolverParams::default());
    r.new_lookup(&name("w.x.t."), RecordType::A).perform().0.unwrap();
    r.new_lookup(&name("v.x.t."), RecordType::A).perform().0.unwrap();
    assert!(asked(0) == 1 && asked(1) == 2, "{:?}", LOG.lock().unwrap());
}
''')
plant("C11-second-alias-asked", "C11", [(R, "            let mut cached_cnames = self.search_records_in_cache_with_trace(dns::RecordType::CNAME);\n",
"            // Nameservers told with an alias are asked directly.\n            let mut cached_cnames = match self.next_nss.is_empty() {\n                true => self.search_records_in_cache_with_trace(dns::RecordType::CNAME),\n                false => vec![],\n            };\n")],
"an alias told along with nameservers, whose target is an alias which the cache holds", "upstream servers are asked about an alias which the cache holds",
UP + '''fn main() {
    upstream(2, |i, n, _| match (i, n) {
        (0, "a.t.") => (RespCode::NoError, true, vec![cname("a.t.", 60, "b.x.t.")], vec![ns("x.t.", "n1.x.t.")], vec![a("n1.x.t.", 3600, ip(1))]),
        (0, _) => refers(vec![ns("x.t.", "n1.x.t.")], vec![a("n1.x.t.", 3600, ip(1))]),
        (_, "b.x.t.") => says(vec![cname("b.x.t.", 60, "c.x.t.")]),
        _ => says(vec![a(n, 60, [10, 0, 0, 1])]),
    }, |_, _| ());
    let (r, _) = resolver(ResolverParams::default());
    r.new_lookup(&name("b.x.t."), RecordType::A).perform().0.unwrap();
    let l = r.new_lookup(&name("a.t."), RecordType::A).perform().0.unwrap();
    assert!(l.0.len() == 3, "{:?}", l);
    let k = LOG.lock().unwrap().iter().filter(|x| x.1 == "b.x.t." && x.0 == 1).count();
    assert!(k == 1, "{:?}", LOG.lock().unwrap());
}
''')
plant("C14-timeouts-crossed", "C14", [(R, "                    r_timeout: self.conf.read_timeout,\n                    w_timeout: self.conf.write_timeout,\n", "                    w_timeout: self.conf.read_timeout,\n                    r_timeout: self.conf.write_timeout,\n")],
"a nameserver which does not answer, with a write timeout longer than the read timeout", "an attempt waits for the write timeout instead of the read timeout",
UP + '''fn main() {
    upstream(2, |i, n, _| match i {
        0 => refers(vec![ns("x.t.", "n1.x.t.")], vec![a("n1.x.t.", 3600, [127, *BASE.get().unwrap(), 79, 1])]),
        _ => says(vec![a(n, 60, [10, 0, 0, 1])]),
    }, |_, _| ());
    // something which listens there and never answers
    let _quiet = UdpSocket::bind((Ipv4Addr::new(127, *BASE.get().unwrap(), 79, 1), 53)).unwrap();
    let (r, _) = resolver(ResolverParams { read_timeout: Duration::from_millis(200), write_timeout: Duration::from_secs(20), max_upd_retries: 1, ..Default::default() });
    let s = std::time::Instant::now();
    assert!(r.new_lookup(&name("w.x.t."), RecordType::A).perform().0.is_err());
    assert!(s.elapsed() < Duration::from_secs(10), "{:?}", s.elapsed());
}
''')
plant("C12-alias-addresses", "C12", [(Q, "            let ns_addrs = extract_ns_addrs(&mut response.additionals, ns_node, zone);\n            NextSubzoneNs {\n                ns_record: next_record,", "            let ns_addrs = extract_records(&mut response.additionals, dns::RecordType::A, ns_node);\n            NextSubzoneNs {\n                ns_record: next_record,")],
"an alias told along with a nameserver of another zone and an address for it", "a server tells the address of a nameserver outside its zone and is believed",
UP + '''fn main() {
    upstream(3, |i, n, _| match (i, n) {
        (0, "w.t.") => (RespCode::NoError, true, vec![cname("w.t.", 60, "b.x.t.")], vec![ns("x.t.", "h.other.")], vec![a("h.other.", 3600, ip(2))]),
        (0, _) => refers(vec![ns("x.t.", "n1.x.t.")], vec![a("n1.x.t.", 3600, ip(1))]),
        _ => says(vec![a(n, 60, [10, 0, 0, 1])]),
    }, |_, _| ());
    let (r, c) = resolver(ResolverParams { read_timeout: Duration::from_millis(300), ..Default::default() });
    c.set((name("other."), RecordType::NS), Duration::from_secs(600), vec![ns("other.", "k2.t.")]);
    c.set((name("k2.t."), RecordType::A), Duration::from_secs(600), vec![a("k2.t.", 600, ip(1))]);
    let _ = r.new_lookup(&name("w.t."), RecordType::A).perform();
    assert!(asked(2) == 0, "{:?}", LOG.lock().unwrap());
}
''')
plant("C10-clean-early", "C10", [(CA, "        cache_inner.retain(|_, entry| !is_expired(&entry.0));", "        // Entries which would expire before the next cleaning are not worth keeping.\n        let next = time::Instant::now() + self.conf.clean_period;\n        cache_inner.retain(|_, entry| entry.0 > next);")],
"a cleaning while an entry has less time left than the period between cleanings", "entries are gone before their time",
'''use ariadne_dns::resolver::*;
use std::time::Duration;
fn main() {
    let c: Cache<u32, u32> = Cache::new(CacheConf { clean_period: Duration::from_secs(60), max_cleaned: 10 });
    c.set(1, Duration::from_secs(30), 7);
    c.clean();
    assert!(c.get_clone(&1).map(|e| e.1) == Some(7), "the entry is gone");
}
''')
plant("C06-sub-apex-ns", "C06", [(H, "        if node.is_in_zone(&subzone.zone) {\n", "        let at_cut = node == &subzone.zone && request.questions[0].record_type == dns::RecordType::SOA;\n        if node.is_in_zone(&subzone.zone) && !at_cut {\n")],
"a query for the SOA record of a sub zone", "the name of a sub zone is denied instead of a referral",
ASK + '''fn main() {
    let h = load(&[("main", TOP), ("a", "@ 100 IN NS ns.other.\\n")], &["a"]);
    let m = ask(&h, "a.example.", RecordType::SOA);
    assert!(m.authorities.len() == 1 && m.authorities[0].record_type() == RecordType::NS, "{:?}", m);
}
''')
plant("C18-refused", "C18", [(HD, "            4 => Ok(RespCode::NotImp),\n            5 => Ok(RespCode::Refused),\n", "            4 => Ok(RespCode::Refused),\n            5 => Ok(RespCode::NotImp),\n"), (HD, "            RespCode::NotImp => 4,\n            RespCode::Refused => 5,\n", "            RespCode::NotImp => 5,\n            RespCode::Refused => 4,\n")],
"a message with the response code NotImp or Refused", "the codes NotImp and Refused have each other's number, when encoded and when decoded",
'''use ariadne_dns::shared::dns;
fn main() {
    let mut b = [0u8; 12];
    b[3] = 5;
    let m = dns::Message::decode_from_bytes(&b).unwrap();
    assert!(matches!(m.header.resp_code, dns::RespCode::Refused), "{:?}", m.header);
    let mut m = m;
    m.header.resp_code = dns::RespCode::NotImp;
    assert!(m.encode_to_bytes().unwrap()[3] == 4);
}
''')
plant("C01-unknown-end", "C01", [(RE, "            check_end(buffer.read_bytes_vec(data_len as usize))?;\n            Err(ParsingErr::UnknownType(n))", "            let end = buffer.read_pos() + data_len as usize * 8;\n            buffer.set_read_pos(end);\n            Err(ParsingErr::UnknownType(n))")],
"a record of an unknown type whose data is longer than the message", "decoding panics",
'''use ariadne_dns::shared::dns;
fn main() {
    let mut b = vec![0u8; 12];
    b[2] = 0x80;
    b[7] = 1;
    b.extend([1, b'a', 0, 0, 250, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2]);
    assert!(dns::Message::decode_from_bytes(&b).is_err());
}
''')
