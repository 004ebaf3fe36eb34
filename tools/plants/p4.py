CONF = r'''
fn file(v: &str) -> String {
    let dir = std::env::temp_dir().join(format!("c17.{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("conf.json");
    std::fs::write(&p, v).unwrap();
    p.to_str().unwrap().to_string()
}
fn clean() {
    let dir = std::env::temp_dir().join(format!("c17.{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
}
'''
RS = r'''
fn rs(read: u64, write: u64, period: u64, cleaned: u64, cname: u64) -> String {
    format!(r#"{{"log_level":"INFO","udp_server":{{"address":"127.0.0.1","port":53,"write_timeout":1,"threads":1}},
"tcp_server":{{"address":"127.0.0.1","port":53,"read_timeout":1,"write_timeout":1,"threads":1}},
"resolver":{{"max_ns_queried":1,"max_ns_retries":1,"max_cname_redir":{},"read_timeout":{},"write_timeout":{},
"cache_conf":{{"clean_period":{},"entries_cleaned":{}}},"trace_conf":{{"silent":true,"verbose":false,"color":false}}}}}}"#, cname, read, write, period, cleaned)
}
'''
plant("C17-timeouts-and", "C17",
      [("src/resolver/conf.rs", "self.resolver.read_timeout == 0 || self.resolver.write_timeout == 0", "self.resolver.read_timeout + self.resolver.write_timeout == 0")],
      "a resolver configuration with exactly one of the two timeouts equal to zero",
      "a zero timeout is accepted, and set_read_timeout refuses it at the first query",
      CONF + RS + r'''
use ariadne_dns::resolver::conf::Conf;
fn main() {
    let a = Conf::from_file(&file(&rs(0, 5, 1, 1, 1))).is_err();
    let b = Conf::from_file(&file(&rs(5, 0, 1, 1, 1))).is_err();
    let c = Conf::from_file(&file(&rs(5, 5, 1, 1, 1))).is_ok();
    clean();
    assert!(a && b && c);
}
''')
NSF = r'''
fn ns(zone: &str, subs: &[&str]) -> String {
    let s: Vec<String> = subs.iter().map(|z| format!(r#"{{"starting_ttl":1,"min_ttl":1,"zone":"{}","file":"f"}}"#, z)).collect();
    format!(r#"{{"log_level":"INFO","udp_server":{{"address":"127.0.0.1","port":53,"write_timeout":1,"threads":1}},
"tcp_server":{{"address":"127.0.0.1","port":53,"read_timeout":1,"write_timeout":1,"threads":1}},
"zone":{{"starting_ttl":1,"zone":"{}","file":"f","sub_zones":[{}]}}}}"#, zone, s.join(","))
}
'''
plant("C17-sub-zone-trim", "C17",
      [("src/nameserver/conf.rs", "dns::Name::from_string(&sub_zone_conf.zone)", "dns::Name::from_string(sub_zone_conf.zone.trim_start_matches('.'))")],
      "a sub zone whose name begins with a dot",
      "an invalid zone name is accepted, and the nameserver panics when it loads the zones",
      CONF + NSF + r"""
use ariadne_dns::nameserver::conf::Conf;
fn main() {
    let a = Conf::from_file(&file(&ns("com.", &["a.com.", ".b.com."]))).is_err();
    let b = Conf::from_file(&file(&ns("com.", &["a.com.", "b..com."]))).is_err();
    let c = Conf::from_file(&file(&ns("com.", &["a.com.", "b.com."]))).is_ok();
    clean();
    assert!(a && b && c);
}
""")
plant("C17-tcp-threads", "C17",
      [("src/resolver/conf.rs", """        if self.tcp_server.threads == 0 {""", """        if self.tcp_server.threads == 0 && self.udp_server.threads == 0 {""")],
      "a resolver configuration with no TCP threads",
      "a configuration without TCP threads is accepted, and the thread pool of the TCP server refuses it with a panic",
      CONF + RS + r'''
use ariadne_dns::resolver::conf::Conf;
fn main() {
    let t = rs(1, 1, 1, 1, 1);
    let k = t.rfind("\"threads\":1").unwrap();
    let mut bad = t.clone();
    bad.replace_range(k..k + 11, "\"threads\":0");
    let a = Conf::from_file(&file(&bad)).is_err();
    let b = Conf::from_file(&file(&t)).is_ok();
    clean();
    assert!(a && b);
}
''')
