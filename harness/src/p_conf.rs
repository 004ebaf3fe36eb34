//! C17: configuration files.

use crate::ensure;
use crate::model::*;
use crate::p_dns::Emit;
use crate::p_zone::enter_scratch;
use crate::util::*;
use ariadne_dns::{nameserver, resolver};

/// Fields: path, kind (s text, a address, n name, b boolean, l level, 2/4/8 unsigned bytes, z the same but not zero).
const COMMON: [(&str, &str); 10] = [
    ("log_level", "l"),
    ("udp_server.address", "a"),
    ("udp_server.port", "2"),
    ("udp_server.write_timeout", "8z"),
    ("udp_server.threads", "8z"),
    ("tcp_server.address", "a"),
    ("tcp_server.port", "2"),
    ("tcp_server.read_timeout", "8z"),
    ("tcp_server.write_timeout", "8z"),
    ("tcp_server.threads", "8z"),
];
const NS: [(&str, &str); 3] = [("zone.starting_ttl", "4"), ("zone.zone", "n"), ("zone.file", "s")];
const SUB: [(&str, &str); 4] = [("starting_ttl", "4"), ("min_ttl", "4"), ("zone", "n"), ("file", "s")];
const RS: [(&str, &str); 10] = [
    ("resolver.max_ns_queried", "8z"),
    ("resolver.max_ns_retries", "8z"),
    ("resolver.max_cname_redir", "8z"),
    ("resolver.read_timeout", "8z"),
    ("resolver.write_timeout", "8z"),
    ("resolver.cache_conf.clean_period", "8z"),
    ("resolver.cache_conf.entries_cleaned", "8z"),
    ("resolver.trace_conf.silent", "b"),
    ("resolver.trace_conf.verbose", "b"),
    ("resolver.trace_conf.color", "b"),
];

fn fields(kind: &str, subs: usize) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = COMMON.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    if kind == "ns" {
        v.extend(NS.iter().map(|(a, b)| (a.to_string(), b.to_string())));
        for i in 0..subs {
            v.extend(SUB.iter().map(|(a, b)| (format!("zone.sub_zones.{}.{}", i, a), b.to_string())));
        }
    } else {
        v.extend(RS.iter().map(|(a, b)| (a.to_string(), b.to_string())));
    }
    v
}

fn v4(s: &str) -> bool {
    let p: Vec<&str> = s.split('.').collect();
    p.len() == 4
        && p.iter().all(|x| {
            !x.is_empty() && x.len() <= 3 && x.bytes().all(|b| b.is_ascii_digit()) && x.parse::<u32>().unwrap() < 256 && (x.len() == 1 || !x.starts_with('0'))
        })
}

/// The groups of an IPv6 text (RFC 4291 2.2).
fn v6(s: &str) -> bool {
    fn groups(s: &str, last: bool) -> Option<usize> {
        if s.is_empty() {
            return Some(0);
        }
        let p: Vec<&str> = s.split(':').collect();
        let mut n = 0;
        for (i, g) in p.iter().enumerate() {
            if last && i == p.len() - 1 && v4(g) {
                n += 2;
            } else if !g.is_empty() && g.len() <= 4 && g.bytes().all(|b| b.is_ascii_hexdigit()) {
                n += 1;
            } else {
                return None;
            }
        }
        Some(n)
    }
    match s.find("::") {
        None => groups(s, true) == Some(8),
        Some(k) => match (groups(&s[..k], false), groups(&s[k + 2..], true)) {
            (Some(a), Some(b)) => a + b <= 7 && !s[..k].contains('.'),
            _ => false,
        },
    }
}

/// The value written as a literal, if it has the kind and is usable.
fn value(kind: &str, lit: &str) -> Option<String> {
    let text = |l: &str| -> Option<String> {
        // the literals made here have no escapes
        if l.len() >= 2 && l.starts_with('"') && l.ends_with('"') {
            Some(l[1..l.len() - 1].to_string())
        } else {
            None
        }
    };
    match kind {
        "s" => text(lit),
        "a" => text(lit).filter(|t| v4(t) || v6(t)),
        "n" => text(lit).filter(|t| valid_name(t)),
        "b" => Some(lit.to_string()).filter(|l| l == "true" || l == "false"),
        "l" => text(lit).filter(|t| ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"].contains(&t.as_str())),
        k => {
            if lit.is_empty() || !lit.bytes().all(|b| b.is_ascii_digit()) || (lit.len() > 1 && lit.starts_with('0')) {
                return None;
            }
            let n: u128 = lit.parse().ok()?;
            let bits = match &k[..1] {
                "2" => 16,
                "4" => 32,
                _ => 64,
            };
            if n >= 1 << bits || (k.ends_with('z') && n == 0) {
                return None;
            }
            Some(n.to_string())
        }
    }
}

#[derive(Debug)]
struct Case {
    kind: String,
    subs: usize,
    lits: Vec<(String, String, String)>, // path, kind, literal
    dropped: Vec<String>,
    tail: String,
    missing: bool,
}

fn dec(case: &str) -> Case {
    let mut c = Case { kind: String::new(), subs: 0, lits: vec![], dropped: vec![], tail: String::new(), missing: false };
    for l in case.lines() {
        let p: Vec<&str> = l.splitn(3, ' ').collect();
        match p[0] {
            "conf" => {
                c.kind = p[1].into();
                c.subs = p[2].parse().unwrap();
                c.lits = fields(&c.kind, c.subs)
                    .into_iter()
                    .map(|(a, k)| {
                        let d = match &k[..1] {
                            "s" => "\"file\"",
                            "a" => "\"127.0.0.1\"",
                            "n" => "\"example.com.\"",
                            "b" => "true",
                            "l" => "\"INFO\"",
                            _ => "5",
                        };
                        (a, k, d.to_string())
                    })
                    .collect();
            }
            "set" => {
                let lit = unword(p[2]);
                for x in c.lits.iter_mut() {
                    if x.0 == p[1] {
                        x.2 = lit.clone();
                    }
                }
            }
            "drop" => c.dropped.push(p[1].into()),
            "tail" => c.tail = unword(p[1]),
            "missing" => c.missing = true,
            _ => panic!("bad case"),
        }
    }
    c
}

fn object(c: &Case, prefix: &str) -> String {
    let mut seen: Vec<String> = vec![];
    let mut out = vec![];
    let mut keys: Vec<(String, String, String)> = c.lits.clone();
    if c.kind == "ns" && c.subs == 0 {
        keys.push(("zone.sub_zones".into(), "e".into(), "[]".into()));
    }
    for (p, _, lit) in &keys {
        if !p.starts_with(prefix) || c.dropped.contains(p) {
            continue;
        }
        let rest = &p[prefix.len()..];
        let key = rest.split('.').next().unwrap().to_string();
        if seen.contains(&key) {
            continue;
        }
        seen.push(key.clone());
        if rest == key {
            out.push(format!("\"{}\": {}", key, lit));
        } else if key == "sub_zones" {
            let subs: Vec<String> = (0..c.subs).map(|i| object(c, &format!("{}sub_zones.{}.", prefix, i))).collect();
            out.push(format!("\"{}\": [{}]", key, subs.join(", ")));
        } else {
            out.push(format!("\"{}\": {}", key, object(c, &format!("{}{}.", prefix, key))));
        }
    }
    format!("{{{}}}", out.join(", "))
}

pub fn check_c17(case: &str) -> Res {
    if case.starts_with("main ") {
        return crate::p_main::check(case);
    }
    enter_scratch();
    let c = dec(case);
    let json = object(&c, "") + &c.tail;
    let path = if c.missing { "c17.none" } else { "c17.json" };
    if !c.missing {
        std::fs::write(path, &json).unwrap();
    }
    let mut want: Vec<(String, String)> = vec![];
    let mut ok = !c.missing && c.dropped.is_empty() && c.tail.trim().is_empty();
    for (p, k, lit) in &c.lits {
        match value(k, lit) {
            Some(v) => want.push((p.clone(), v)),
            None => ok = false,
        }
    }
    let got: Result<Vec<(String, String)>, String> = if c.kind == "ns" {
        nameserver::conf::Conf::from_file(path).map(|x| {
            let mut g = vec![
                ("log_level".to_string(), x.log_level.to_string()),
                ("udp_server.address".to_string(), x.udp_server.address.clone()),
                ("udp_server.port".into(), x.udp_server.port.to_string()),
                ("udp_server.write_timeout".into(), x.udp_server.write_timeout.to_string()),
                ("udp_server.threads".into(), x.udp_server.threads.to_string()),
                ("tcp_server.address".into(), x.tcp_server.address.clone()),
                ("tcp_server.port".into(), x.tcp_server.port.to_string()),
                ("tcp_server.read_timeout".into(), x.tcp_server.read_timeout.to_string()),
                ("tcp_server.write_timeout".into(), x.tcp_server.write_timeout.to_string()),
                ("tcp_server.threads".into(), x.tcp_server.threads.to_string()),
                ("zone.starting_ttl".into(), x.zone.starting_ttl.to_string()),
                ("zone.zone".into(), x.zone.zone.clone()),
                ("zone.file".into(), x.zone.file.clone()),
            ];
            for (i, s) in x.zone.sub_zones.iter().enumerate() {
                g.push((format!("zone.sub_zones.{}.starting_ttl", i), s.starting_ttl.to_string()));
                g.push((format!("zone.sub_zones.{}.min_ttl", i), s.min_ttl.to_string()));
                g.push((format!("zone.sub_zones.{}.zone", i), s.zone.clone()));
                g.push((format!("zone.sub_zones.{}.file", i), s.file.clone()));
            }
            g
        })
    } else {
        resolver::conf::Conf::from_file(path).map(|x| {
            let r = &x.resolver;
            vec![
                ("log_level".to_string(), x.log_level.to_string()),
                ("udp_server.address".to_string(), x.udp_server.address.clone()),
                ("udp_server.port".into(), x.udp_server.port.to_string()),
                ("udp_server.write_timeout".into(), x.udp_server.write_timeout.to_string()),
                ("udp_server.threads".into(), x.udp_server.threads.to_string()),
                ("tcp_server.address".into(), x.tcp_server.address.clone()),
                ("tcp_server.port".into(), x.tcp_server.port.to_string()),
                ("tcp_server.read_timeout".into(), x.tcp_server.read_timeout.to_string()),
                ("tcp_server.write_timeout".into(), x.tcp_server.write_timeout.to_string()),
                ("tcp_server.threads".into(), x.tcp_server.threads.to_string()),
                ("resolver.max_ns_queried".into(), r.max_ns_queried.to_string()),
                ("resolver.max_ns_retries".into(), r.max_ns_retries.to_string()),
                ("resolver.max_cname_redir".into(), r.max_cname_redir.to_string()),
                ("resolver.read_timeout".into(), r.read_timeout.to_string()),
                ("resolver.write_timeout".into(), r.write_timeout.to_string()),
                ("resolver.cache_conf.clean_period".into(), r.cache_conf.clean_period.to_string()),
                ("resolver.cache_conf.entries_cleaned".into(), r.cache_conf.entries_cleaned.to_string()),
                ("resolver.trace_conf.silent".into(), r.trace_conf.silent.to_string()),
                ("resolver.trace_conf.verbose".into(), r.trace_conf.verbose.to_string()),
                ("resolver.trace_conf.color".into(), r.trace_conf.color.to_string()),
            ]
        })
    };
    match got {
        Err(e) => ensure!(!ok, "refused ({}): {}", e, json),
        Ok(mut g) => {
            ensure!(ok, "accepted: {}", json);
            g.sort();
            want.sort();
            ensure!(g == want, "values {:?} instead of {:?}", g, want);
        }
    }
    Ok(c.lits.len() > 13 || !ok)
}

fn literal(r: &mut Rng, kind: &str) -> String {
    let q = |s: &str| format!("\"{}\"", s);
    match &kind[..1] {
        "s" => r.pick(&["\"a/b\"", "\"\"", "5", "null", "\"x y\"", "[]"]).to_string(),
        "a" => match r.below(4) {
            0 => q(&format!("{}.{}.{}.{}", r.below(260), r.below(300), r.below(256), r.below(258))),
            1 => q(&(0..r.range(6, 9)).map(|_| format!("{:x}", r.below(70000))).collect::<Vec<_>>().join(":")),
            2 => {
                let a: Vec<String> = (0..r.below(6)).map(|_| format!("{:x}", r.below(65536))).collect();
                let b: Vec<String> = (0..r.below(5)).map(|_| format!("{:x}", r.below(65536))).collect();
                q(&format!("{}::{}", a.join(":"), b.join(":")))
            }
            _ => r
                .pick(&[
                    "\"\"", "\"localhost\"", "\"127.0.0.1:53\"", "\"127.0.0\"", "\"127.0.0.01\"", "\"::1\"", "\"[::1]\"", "\"::\"", "\"0.0.0.0\"", "\"::ffff:1.2.3.4\"",
                    "\" 127.0.0.1\"", "\"127.0.0.1 \"", "\"127.0.0.1.\"", "\"256.0.0.1\"", "\"1.2.3.4.5\"", "\"1:2:3:4:5:6:7::\"", "\"fe80::1%eth0\"", "5", "\":::\"",
                ])
                .to_string(),
        },
        "n" => match r.below(3) {
            0 => q(&gen_name(r)),
            1 => {
                let mut n = gen_name(r);
                n.pop();
                q(&n)
            }
            _ => r.pick(&["\"\"", "\".\"", "\"com\"", "\"a..b.\"", "\"-a.com.\"", "\"a-.com.\"", "\".com.\"", "\"a_b.com.\"", "\"a b.\"", "7"]).to_string(),
        },
        "b" => r.pick(&["true", "false", "0", "1", "\"true\"", "null"]).to_string(),
        "l" => r.pick(&["\"ERROR\"", "\"WARN\"", "\"INFO\"", "\"DEBUG\"", "\"TRACE\"", "\"OFF\"", "\"\"", "3", "\"ALL\""]).to_string(),
        k => {
            let max: u128 = match k {
                "2" => 1 << 16,
                "4" => 1 << 32,
                _ => 1 << 64,
            };
            match r.below(5) {
                0 => "0".into(),
                1 => (max - 1).to_string(),
                2 => max.to_string(),
                3 => r.below(1000).to_string(),
                _ => r.pick(&["-1", "1.5", "\"5\"", "null", "1", "2", "65535", "65536", "4294967295", "4294967296"]).to_string(),
            }
        }
    }
}

pub fn gen_c17(r: &mut Rng, part: usize, parts: usize, emit: Emit) {
    // the programs, in turn with the files
    for c in crate::p_main::cases(r, part, parts) {
        if !emit(c) {
            return;
        }
    }
    // each field with several literals first
    let mut k = 0;
    for kind in ["ns", "rs"] {
        for (p, f) in fields(kind, 2) {
            let mut lits: Vec<String> = vec!["0".into(), "1".into(), "\"\"".into()];
            for _ in 0..12 {
                lits.push(literal(r, &f));
            }
            for l in lits {
                k += 1;
                if k % parts == part && !emit(format!("conf {} 2\nset {} {}\n", kind, p, word(&l))) {
                    return;
                }
            }
            k += 1;
            if k % parts == part && !emit(format!("conf {} 2\ndrop {}\n", kind, p)) {
                return;
            }
        }
    }
    loop {
        let kind = *r.pick(&["ns", "rs"]);
        let subs = if kind == "ns" { r.below(4) } else { 0 };
        let mut o = format!("conf {} {}\n", kind, subs);
        let f = fields(kind, subs);
        for _ in 0..r.below(6) {
            let (p, k) = r.pick(&f).clone();
            let mut l = literal(r, &k);
            for _ in 0..6 {
                if value(&k, &l).is_some() || r.chance(1, 8) {
                    break;
                }
                l = literal(r, &k);
            }
            o.push_str(&format!("set {} {}\n", p, word(&l)));
        }
        if r.chance(1, 20) {
            o.push_str(&format!("drop {}\n", r.pick(&f).0));
        }
        if r.chance(1, 20) {
            o.push_str(&format!("tail {}\n", word(r.pick(&["}", " ", "\n", "x", ",", "{}"]))));
        }
        if r.chance(1, 40) {
            o.push_str("missing\n");
        }
        if !emit(o) {
            return;
        }
    }
}
