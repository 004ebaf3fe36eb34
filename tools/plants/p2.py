N = "src/shared/dns/name.rs"
R = "src/shared/dns/records.rs"
M = "src/shared/dns/message.rs"
H = "src/shared/dns/header.rs"
T = "src/shared/dns/types.rs"
U = "src/shared/dns/utils.rs"
Q = "src/shared/dns/questions.rs"

plant("C01-pointer-loop", "C01", [(N, "v if v > Self::MAX_REDIR => return Err(NameErr::MaxRedir),",
        "v if v == Self::MAX_REDIR && !name_bytes.is_empty() => return Err(NameErr::MaxRedir),")],
    "a compression pointer which, directly or through others, leads to itself and never to a label",
    "decoding follows the pointers forever, until the counter of the jumps overflows",
    '''use ariadne_dns::shared::dns::Message;
fn main() {
    let mut b = vec![0u8, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0];
    b.extend([1, b'a', 0xc0, 12, 0, 1, 0, 1]);
    assert!(Message::decode_from_bytes(&b).is_err());
    let mut b = vec![0u8, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0];
    b.extend([0xc0, 12, 0, 1, 0, 1]);
    assert!(Message::decode_from_bytes(&b).is_err(), "pointer to itself");
}
''')

plant("C02-unknown-authority", "C02", [(M, """            match decoded_authority {
                Err(ParsingErr::UnknownType(_)) => continue,""", """            match decoded_authority {
                Err(ParsingErr::UnknownType(_)) => break,""")],
    "a record of an unknown type in the authority section, followed by another record of the section",
    "the records after one of an unknown type are read into the wrong section or lost",
    '''use ariadne_dns::shared::dns::Message;
fn main() {
    let mut b = vec![0u8, 1, 0x80, 0, 0, 0, 0, 0, 0, 2, 0, 1];
    b.extend([1, b'a', 0, 0, 46, 0, 1, 0, 0, 0, 60, 0, 3, 1, 2, 3]);
    b.extend([1, b'b', 0, 0, 2, 0, 1, 0, 0, 0, 60, 0, 3, 1, b'n', 0]);
    b.extend([1, b'n', 0, 0, 1, 0, 1, 0, 0, 0, 60, 0, 4, 10, 0, 0, 9]);
    let m = Message::decode_from_bytes(&b).expect("decodes");
    assert_eq!(m.authorities.len(), 1);
    assert_eq!(m.additionals.len(), 1);
    assert_eq!(m.additionals[0].a_data(), &[10, 0, 0, 9]);
}
''')

plant("C03-soa-length", "C03", [(R, "    buffer.write_u16((auth_ns_name.len() + mail_name.len() + 20) as u16);",
        "    buffer.write_u16(((auth_ns_name.len() + mail_name.len() + 20) as u8).max(22) as u16);")],
    "an SOA record whose two names take more than 235 bytes together",
    "the data length written for the record is not the one of its data",
    '''use ariadne_dns::shared::buffer::BitsBuf;
use ariadne_dns::shared::dns::*;
fn soa(l: usize) -> Record {
    let n = |c: &str| Name::from_string(&format!("{}.{}.{}.", c.repeat(l), c.repeat(l), c.repeat(l))).unwrap();
    Record::SOA { node: Name::from_string("a.").unwrap(), class: Class::IN, ttl: 5, data_len: 0, ns_name: n("x"), ml_name: n("y"),
        serial: 1, refresh: 2, retry: 3, expire: 4, minimum: 5 }
}
fn main() {
    for l in [5, 30, 50] {
        let r = soa(l);
        let mut b = BitsBuf::new();
        r.encode_to_buf(&mut b).unwrap();
        let d = Record::decode_from_bytes(&b.into_vec()).expect("decodes");
        assert_eq!(*d.data_len() as usize, 2 * (3 * (l + 1) + 1) + 20);
    }
}
''')

plant("C03-header-z", "C03", [(H, "        buffer.write_bits(self.z, 3);\n        buffer.write_bits(self.resp_code.to_num(), 4);",
        "        buffer.write_bits(self.z, 3);\n        buffer.write_bits(self.resp_code.to_num() & !(self.z >> 2), 4);")],
    "a header whose reserved bits have the first bit set and whose response code is odd",
    "the response code changes when the message is encoded and decoded",
    '''use ariadne_dns::shared::buffer::BitsBuf;
use ariadne_dns::shared::dns::*;
fn main() {
    for z in [0u8, 1, 3, 4, 7] {
        for rc in [RespCode::NoError, RespCode::FormErr, RespCode::Refused] {
            let h = Header { z, resp_code: rc, ..Header::default() };
            let mut b = BitsBuf::new();
            h.encode_to_buf(&mut b);
            let d = Header::decode_from_bytes(&b.into_vec()).unwrap();
            assert_eq!(format!("{:?}", d), format!("{:?}", h));
        }
    }
}
''')

TR = '''use ariadne_dns::shared::dns::*;
fn name(i: usize, l: usize) -> Name { Name::from_string(&format!("{}{}.example.", "x".repeat(l), i)).unwrap() }
fn rec(i: usize, l: usize) -> Record { Record::A { node: name(i, l), class: Class::IN, ttl: 5, data_len: 4, address: [i as u8; 4] } }
fn msg(q: usize, a: usize, n: usize, d: usize) -> Message {
    let recs = |k: usize| (0..k).map(|i| rec(i % 10, 8)).collect::<Vec<_>>();
    Message {
        header: Header { query_resp: true, questions_count: q as u16, answers_count: a as u16, authorities_count: n as u16, additionals_count: d as u16, ..Header::default() },
        questions: (0..q).map(|i| Question { node: name(i % 10, 8), record_type: RecordType::A, class: Class::IN }).collect(),
        answers: recs(a), authorities: recs(n), additionals: recs(d),
    }
}
fn size(m: &Message) -> usize { m.encode_to_bytes().unwrap().len() }
'''
plant("C04-authorities-flag", "C04", [(M, """                return Ok(buffer.into_vec());
            } else {
                header.authorities_count += 1;
            }""", """                return Ok(buffer.into_vec());
            } else {
                header.authorities_count = i as u16;
            }""")],
    "a response for UDP which carries authority records and is, or is not, truncated",
    "the count of the authority records of truncated encodings is one less than the records kept",
    TR + '''fn main() {
    let m = msg(1, 1, 0, 2);
    assert_eq!(m.encode_to_bytes_trunc().unwrap(), m.encode_to_bytes().unwrap());
    let m = msg(1, 1, 3, 2);
    assert_eq!(m.encode_to_bytes_trunc().unwrap(), m.encode_to_bytes().unwrap());
}
''')

plant("C04-additionals-flag", "C04", [(M, """            match self.additionals[i].encode_to_buf(&mut buffer) {
                Err(err) => return Err(MessageErr::AdditionalErr(i, err)),
                Ok(v) => v,
            };
            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
                buffer.set_write_pos(0);
                header.truncated = true;""", """            match self.additionals[i].encode_to_buf(&mut buffer) {
                Err(err) => return Err(MessageErr::AdditionalErr(i, err)),
                Ok(v) => v,
            };
            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
                buffer.set_write_pos(0);
                header.truncated = header.additionals_count == 0;""")],
    "a message which stops fitting at an additional record which is not the first one",
    "additional records are dropped without setting the truncation flag",
    TR + '''fn main() {
    for d in [0usize, 3, 8, 12, 18, 30] {
        let m = msg(1, 1, 1, d);
        let out = m.encode_to_bytes_trunc().unwrap();
        let dec = Message::decode_from_bytes(&out).unwrap();
        assert_eq!(dec.header.truncated, dec.additionals.len() < d, "{} additionals", d);
        assert!(size(&m) > 512 || dec.additionals.len() == d);
    }
}
''')

plant("C04-limit-answers", "C04", [(M, """            match self.answers[i].encode_to_buf(&mut buffer) {
                Err(err) => return Err(MessageErr::AnswerErr(i, err)),
                Ok(v) => v,
            };
            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {""", """            match self.answers[i].encode_to_buf(&mut buffer) {
                Err(err) => return Err(MessageErr::AnswerErr(i, err)),
                Ok(v) => v,
            };
            if buffer.write_pos() / 8 >= MAX_UDP_LEN_BYTES {""")],
    "an answer which ends exactly at the 512th byte",
    "an entry which fits is dropped and the truncation flag is set",
    TR + '''fn main() {
    // the owner of the last answer is sized to end at byte 512
    for want in [511usize, 512, 513] {
        let mut m = msg(1, 12, 0, 0);
        let mut left = want - size(&m);
        while left > 75 {
            m.answers.push(rec(1, 8));
            m.header.answers_count += 1;
            left = want - size(&m);
        }
        m.answers.push(rec(1, left - 25));
        m.header.answers_count += 1;
        assert_eq!(size(&m), want);
        let out = m.encode_to_bytes_trunc().unwrap();
        assert_eq!(out.len() == want, want <= 512, "{} bytes", want);
    }
}
''')

plant("C18-mailb", "C18", [(T, '''            "MAILA" => Ok(RecordType::MAILA),
            "MAILB" => Ok(RecordType::MAILB),''', '''            "MAILA" => Ok(RecordType::MAILB),
            "MAILB" => Ok(RecordType::MAILA),''')],
    "the textual names MAILA and MAILB",
    "the two names are swapped when read",
    '''use ariadne_dns::shared::dns::RecordType;
fn main() {
    for n in 0u16..=65535 {
        if let Ok(t) = RecordType::from_num(n) {
            assert_eq!(t.to_num(), n);
            assert!(RecordType::from_str(t.to_str()).ok() == Some(t), "{}", n);
        }
    }
}
''')

plant("C18-string-len", "C18", [(U, """    let len = string.len();
    if len > 255 {""", """    let len = string.len();
    if string.chars().count() > 255 {""")],
    "a string of at most 255 characters but more than 255 bytes",
    "strings too long are encoded with a wrong length byte",
    '''use ariadne_dns::shared::buffer::BitsBuf;
use ariadne_dns::shared::dns::*;
fn enc(s: &str) -> bool {
    let r = Record::HINFO { node: Name::from_string("a.").unwrap(), class: Class::IN, ttl: 5, data_len: 0, cpu: s.to_string(), os: "o".to_string() };
    r.encode_to_buf(&mut BitsBuf::new()).is_ok()
}
fn main() {
    assert!(enc(&"x".repeat(255)));
    assert!(!enc(&"x".repeat(256)));
    assert!(!enc(&"\\u{e9}".repeat(200)), "400 bytes accepted");
}
''')
