N = "src/shared/dns/name.rs"
B = "src/shared/buffer/buffer.rs"

plant("C05-unicode-label", "C05", [(N, "between = label.chars().all(|ch| ch.is_ascii_alphanumeric() || ch == '-')",
        "between = label.chars().all(|ch| ch.is_alphanumeric() || ch == '-')")],
    "a label with a non ASCII letter which is neither the first nor the last character",
    "names with non ASCII letters are accepted",
    '''use ariadne_dns::shared::dns::Name;
fn main() {
    assert!(Name::from_string("caf\\u{e9}s.example.").is_err(), "non ASCII label accepted");
    assert!(Name::from_string("cafes.example.").is_ok());
}
''')

plant("C05-below-sub-zone", "C05", [(N, """            if self.is_in_zone(sub_zone) {
                return false;""", """            if self.is_in_zone_root(sub_zone) {
                return false;""")],
    "a name strictly below the top node of a sub zone",
    "names below a sub zone are taken as names of the authoritative zone",
    '''use ariadne_dns::shared::dns::Name;
fn main() {
    let n = |s: &str| Name::from_string(s).unwrap();
    let subs = vec![n("sub.example.com."), n("other.example.com.")];
    assert!(!n("other.example.com.").is_only_in_auth_zone(&n("example.com."), &subs));
    assert!(n("www.example.com.").is_only_in_auth_zone(&n("example.com."), &subs));
    assert!(!n("a.b.sub.example.com.").is_only_in_auth_zone(&n("example.com."), &subs), "below a sub zone");
}
''')

plant("C05-zone-longer", "C05", [(N, """                None => return false,
                Some(v) => v,
            };
            if nl""", """                None => break,
                Some(v) => v,
            };
            if nl""")],
    "a zone which is below the name: the labels of the name run out before those of the zone",
    "an ancestor of a zone is taken as inside the zone",
    '''use ariadne_dns::shared::dns::Name;
fn main() {
    let n = |s: &str| Name::from_string(s).unwrap();
    assert!(n("a.example.com.").is_in_zone(&n("example.com.")));
    assert!(!n("a.example.org.").is_in_zone(&n("example.com.")));
    assert!(!n("example.com.").is_in_zone(&n("a.example.com.")), "ancestor inside the zone");
}
''')

plant("C19-stale-bits", "C19", [(B, "let first_bits_eraser = ((1_u16 << avail_bits_current) - 1) as u8;",
        "let first_bits_eraser = first_bits_shifted;")],
    "overwriting, across a byte boundary, bits which were set with bits which are not",
    "writing across a byte boundary leaves old bits set in the first byte",
    '''use ariadne_dns::shared::buffer::BitsBuf;
fn main() {
    let mut b = BitsBuf::new();
    b.write_u16(0xffff);
    b.set_write_pos(5);
    b.write_bits(0b101010, 6);
    assert_eq!(b.into_vec(), vec![0xfd, 0x5f]);
}
''')
