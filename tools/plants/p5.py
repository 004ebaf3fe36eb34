PA, PP, PU = "src/nameserver/zones/parser_auth.rs", "src/nameserver/zones/parser.rs", "src/nameserver/zones/utils.rs"
SET = '''use ariadne_dns::nameserver::{parse_zone_files, ManagedZone, ParsingParams, SubParsingParams};
use ariadne_dns::shared::dns::{Name, Record, RecordType};
fn name(s: &str) -> Name { Name::from_string(s).unwrap() }
fn load(files: &[(&str, &str)], subs: &[&str]) -> Result<ManagedZone, String> {
    let d = std::env::temp_dir().join(format!("zones.{}", std::process::id()));
    let _ = std::fs::create_dir(&d);
    let p = |f: &str| format!("{}/{}", d.display(), f);
    for (f, t) in files { std::fs::write(p(f), t.replace("DIR", &d.display().to_string())).unwrap(); }
    let r = parse_zone_files(ParsingParams { file_path: p("main"), zone: name("example."), starting_ttl: 60,
        sub_zones: subs.iter().map(|s| SubParsingParams { file_path: p(s), zone: name(&format!("{}.example.", s)), starting_ttl: 60, min_ttl: 10 }).collect() });
    let _ = std::fs::remove_dir_all(&d);
    r.map_err(|e| format!("{:?}", e))
}
fn get(z: &ManagedZone, n: &str, t: RecordType) -> Vec<Record> { z.auth_zone.get(&name(n), t).map(|v| v.iter().map(|r| r.clone()).collect()).unwrap_or_default() }
const TOP: &str = "@ 100 IN SOA ns mail 1 2 3 4 50\\n@ NS ns.other.\\n";
'''

plant("C08-glue-elsewhere", "C08", [(PP, """        for sub_zone in &zones.sub_zones {
            if pointed_ns.is_in_zone(&sub_zone.zone) {""", """        for sub_zone in zones.sub_zones.iter().filter(|s| s.zone == subzone.zone) {
            if pointed_ns.is_in_zone(&sub_zone.zone) {""")],
    "a sub zone whose nameserver lies inside another sub zone, which has no address for it",
    "the zone files load, and referrals to that sub zone have no usable nameserver",
    SET + '''fn main() {
    let a = "@ NS ns.b\\n".replace("ns.b", "ns.b.example.");
    let ok = load(&[("main", TOP), ("a", &a), ("b", "@ NS ns\\nns A 1.2.3.4\\n")], &["a", "b"]);
    assert!(ok.is_ok(), "{:?}", ok.err());
    let bad = load(&[("main", TOP), ("a", &a), ("b", "@ NS ns2\\nns2 A 1.2.3.4\\n")], &["a", "b"]);
    assert!(bad.is_err(), "no address for ns.b.example.");
}
''')

plant("C08-include-min-ttl", "C08", [(PA, """        min_ttl: p_state.min_ttl,
        depth""", """        min_ttl: if p_state.current_ttl < p_state.min_ttl { p_state.min_ttl } else { 0 },
        depth""")],
    "an included file with a record whose TTL is lower than the minimum of the SOA record",
    "the record is accepted with a TTL lower than the minimum",
    SET + '''fn main() {
    assert!(load(&[("main", &format!("{}a 40 TXT b\\n", TOP))], &[]).is_err());
    assert!(load(&[("main", &format!("{}$INCLUDE DIR/inc\\n", TOP)), ("inc", "a 60 TXT b\\n")], &[]).is_ok());
    assert!(load(&[("main", &format!("{}$INCLUDE DIR/inc\\n", TOP)), ("inc", "a 40 TXT b\\n")], &[]).is_err(), "low TTL accepted");
}
''')

plant("C08-include-origin", "C08", [(PA, """        let name = adjust_name(&state.current_orig, &mut name)?;
        ensure_name_in_auth_zone(&name, state.zone, state.sub_zones)?;
        name
    } else {
        state.current_orig.clone()""", """        let name = adjust_name(&state.current_orig, &mut name)?;
        ensure_name_in_zone(&name, state.zone)?;
        name
    } else {
        state.current_orig.clone()""")],
    "an $INCLUDE whose origin is inside a sub zone, and a record without owner in the file included",
    "the zone holds records of a delegated name",
    SET + '''fn main() {
    let sub = ("a", "@ NS ns.other.\\n");
    assert!(load(&[("main", &format!("{}$INCLUDE DIR/inc c\\n", TOP)), ("inc", "@ TXT b\\n"), sub], &["a"]).is_ok());
    assert!(load(&[("main", &format!("{}$INCLUDE DIR/inc x.a\\n", TOP)), ("inc", "@ TXT b\\n"), sub], &["a"]).is_err(), "record of a sub zone");
}
''')

plant("C08-glue-owner", "C08", [(PP, "        if a_node == record.ns_data() {", "        if record.ns_data().is_in_zone(a_node) {")],
    "an address in a sub zone file owned by an ancestor of one of its nameservers",
    "an address which belongs to no nameserver is accepted",
    SET + '''fn main() {
    assert!(load(&[("main", TOP), ("a", "@ NS ns.x\\nns.x A 1.2.3.4\\n")], &["a"]).is_ok());
    assert!(load(&[("main", TOP), ("a", "@ NS ns.x\\nns.x A 1.2.3.4\\nw A 1.2.3.5\\n")], &["a"]).is_err());
    assert!(load(&[("main", TOP), ("a", "@ NS ns.x\\nns.x A 1.2.3.4\\nx A 1.2.3.5\\n")], &["a"]).is_err(), "address of no nameserver");
}
''')

plant("C20-include-default-origin", "C20", [(PA, """    } else {
        state.current_orig.clone()
    };

    // Here should""", """    } else {
        state.zone.clone()
    };

    // Here should""")],
    "an $INCLUDE without origin after an $ORIGIN",
    "the relative names of the included file are completed with the zone name instead of the current origin",
    SET + '''fn main() {
    let z = load(&[("main", &format!("{}$INCLUDE DIR/inc\\n", TOP)), ("inc", "a TXT b\\n")], &[]).unwrap();
    assert_eq!(get(&z, "a.example.", RecordType::TXT).len(), 1);
    let z = load(&[("main", &format!("{}$ORIGIN sub.example.\\n$INCLUDE DIR/inc\\n", TOP)), ("inc", "a TXT b\\n")], &[]).unwrap();
    assert_eq!(get(&z, "a.sub.example.", RecordType::TXT).len(), 1, "the record is elsewhere");
}
''')

plant("C20-last-ttl", "C20", [(PA, "                state.current_ttl = *record.ttl();", "                state.current_ttl = state.current_ttl.max(*record.ttl());")],
    "a record with a lower TTL than the one before, followed by one without TTL",
    "the absent TTL is not the one of the previous record",
    SET + '''fn main() {
    let z = load(&[("main", &format!("{}a 200 TXT a\\nb TXT b\\n", TOP))], &[]).unwrap();
    assert_eq!(*get(&z, "b.example.", RecordType::TXT)[0].ttl(), 200);
    let z = load(&[("main", &format!("{}a 80 TXT a\\nb TXT b\\n", TOP))], &[]).unwrap();
    assert_eq!(*get(&z, "b.example.", RecordType::TXT)[0].ttl(), 80);
}
''')

plant("C20-include-ttl-back", "C20", [(PA, "                let included_records = parse_included_file(filename, origin, state)?;", """                let included_records = parse_included_file(filename, origin.clone(), state)?;
                if origin != *state.zone {
                    state.current_orig = origin;
                }""")],
    "an $INCLUDE with an origin, followed by a relative name in the including file",
    "the origin given to the included file stays in force after it",
    SET + '''fn main() {
    let z = load(&[("main", &format!("{}$INCLUDE DIR/inc\\nb TXT b\\n", TOP)), ("inc", "a TXT b\\n")], &[]).unwrap();
    assert_eq!(get(&z, "b.example.", RecordType::TXT).len(), 1);
    let z = load(&[("main", &format!("{}$INCLUDE DIR/inc c\\nb TXT b\\n", TOP)), ("inc", "a TXT b\\n")], &[]).unwrap();
    assert_eq!(get(&z, "a.c.example.", RecordType::TXT).len(), 1);
    assert_eq!(get(&z, "b.example.", RecordType::TXT).len(), 1, "the origin leaked");
}
''')

plant("C20-class-ttl-zero", "C20", [(PU, """            tokenizer.next().unwrap();
            Ok((Some(ttl), Some(class)))""", """            tokenizer.next().unwrap();
            Ok((Some(ttl).filter(|t| *t > 0), Some(class)))""")],
    "a class followed by a TTL of zero, in a zone whose minimum is zero",
    "the TTL written is replaced with the one of the previous record",
    SET + '''fn main() {
    let top = TOP.replace("4 50", "4 0");
    let z = load(&[("main", &format!("{}a IN 5 TXT a\\nb 0 IN TXT b\\n", top))], &[]).unwrap();
    assert_eq!(*get(&z, "b.example.", RecordType::TXT)[0].ttl(), 0);
    let z = load(&[("main", &format!("{}a IN 5 TXT a\\nb IN 0 TXT b\\n", top))], &[]).unwrap();
    assert_eq!(*get(&z, "b.example.", RecordType::TXT)[0].ttl(), 0);
}
''')
