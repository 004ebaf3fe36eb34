PL = "/verif/tools/plants/"
def block(f, name):
    s = open(PL + f).read()
    i = s.index(name + " = '''") + len(name) + 6
    return eval("'''" + s[i:s.index("'''", i)] + "'''")
UP = block("p8.py", "UP"); ASK = block("p6.py", "ASK"); NET = block("p6.py", "NET")
N, SUB, R, T = "src/shared/dns/name.rs", "src/nameserver/zones/parser_sub.rs", "src/resolver/back_end/recursive.rs", "src/shared/net/tcp_server.rs"
H, RH, UT = "src/nameserver/handler.rs", "src/resolver/handler.rs", "src/resolver/back_end/utils.rs"

plant("C20-sub-last-ttl", "C20", [(SUB, """                state.current_ttl = *record.ttl();
                sub_zone_records.insert(record);
""", """                if record.record_type() == dns::RecordType::NS {
                    state.current_ttl = *record.ttl();
                }
                sub_zone_records.insert(record);
""")],
"a sub zone file with a record without TTL which follows an A record", "the record gets the TTL of an earlier record",
ASK + '''fn main() {
    let h = load(&[("main", TOP), ("sub", "@ 100 NS n1\\n@ NS n2\\nn1 200 A 10.0.0.1\\nn2 A 10.0.0.2\\n")], &["sub"]);
    let m = ask(&h, "x.sub.example.", RecordType::A);
    let t: Vec<u32> = m.additionals.iter().map(|r| *r.ttl()).collect();
    assert!(t == [200, 200], "{:?}", t);
}
''')
plant("C14-attempts-crossed", "C14", [(R, "retries: self.conf.max_upd_retries,", "retries: self.conf.max_ns_queried,")],
"limits of attempts and of nameservers which differ, and a nameserver which does not answer well", "another number of attempts is made than the one configured",
UP + '''fn main() {
    upstream(2, |i, n, _| match i {
        0 => refers(vec![ns("x.t.", "n1.x.t.")], vec![a("n1.x.t.", 3600, ip(1))]),
        _ => says(vec![a(n, 60, [10, 0, 0, 1])]),
    }, |i, m| if i == 1 { m.header.id ^= 1 });
    let (r, _) = resolver(ResolverParams { max_upd_retries: 2, max_ns_queried: 5, read_timeout: Duration::from_millis(500), ..Default::default() });
    assert!(r.new_lookup(&name("w.x.t."), RecordType::A).perform().0.is_err());
    assert!(asked(1) == 2, "{}", asked(1));
}
''')
plant("C15-length-in-parts", "C15", [(T, """        if let Err(err) = self.0.read_exact(&mut buf) {
            return DnsReadResult::IoErr(err);
        };
        let req_len""", """        match self.0.read(&mut buf) {
            Ok(0) => return DnsReadResult::IoErr(io::ErrorKind::UnexpectedEof.into()),
            Ok(_) => {}
            Err(err) => return DnsReadResult::IoErr(err),
        };
        let req_len""")],
"a TCP client which sends the two bytes of the length one by one", "the request is read at the wrong place",
NET + '''fn main() {
    let (_, t) = start();
    let b = request(0);
    assert!(tcp(t, &b, &[2]).len() == b.len() + 2);
    let out = tcp(t, &b, &[1]);
    assert!(out.len() == b.len() + 2, "length in two parts: reply of {} bytes", out.len());
}
''')
plant("C07-log-parent", "C07", [(H, """        "[{}] Start handling request: node '{}', type {:?}.",
        dns_request.id(),
        node,
        record_type
""", """        "[{}] Start handling request: node '{}' (parent '{}'), type {:?}.",
        dns_request.id(),
        node,
        node.as_ref().splitn(3, '.').nth(1).map(|p| &node.as_ref()[node.as_ref().len() - p.len() - 2..]).unwrap(),
        record_type
""")],
"a question about the root, with logging enabled (as in the program)", "the handler panics and does not reply",
ASK + '''fn main() {
    ariadne_dns::shared::logs::init_log();
    let h = load(&[("main", TOP)], &[]);
    let m = ask(&h, "www.example.", RecordType::A);
    assert!(m.questions.len() == 1);
    let m = ask(&h, ".", RecordType::A);
    assert!(matches!(m.header.resp_code, dns::RespCode::Refused));
}
''')
