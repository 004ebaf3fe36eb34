//! Properties of zone files: C08, C09, C20.

use crate::ensure;
use crate::model::*;
use crate::p_dns::Emit;
use crate::util::*;
use ariadne_dns::nameserver::verif::{Token, TokenErr, Tokenizer};
use ariadne_dns::nameserver::{parse_zone_files, ManagedZone, ParsingParams, SubParsingParams, Zone};
use std::collections::HashMap;

/// A directory of this process, which is its current directory.
pub fn enter_scratch() {
    use std::sync::OnceLock;
    static DIR: OnceLock<String> = OnceLock::new();
    DIR.get_or_init(|| {
        let d = format!("zt.{}", std::process::id());
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_current_dir(&d).unwrap();
        d
    });
}

// ------------------------------------------------------------------ tokens

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Origin,
    Include,
    Q(String),
    S(String),
    N(u32),
    Blank,
    Nl,
    End,
    At,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TokBad {
    Dir,
    Quote,
    Open,
    Close,
    NoClose,
    Escape,
    Read,
}

type T = Result<Tok, TokBad>;

/// The lines of a file, None for one which is not a text.
fn lines(b: &[u8]) -> Vec<Option<String>> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let e = b[i..].iter().position(|x| *x == b'\n').map(|k| i + k);
        let mut l = &b[i..e.unwrap_or(b.len())];
        if e.is_some() && l.last() == Some(&b'\r') {
            l = &l[..l.len() - 1];
        }
        v.push(String::from_utf8(l.to_vec()).ok());
        i = e.unwrap_or(b.len()) + 1;
    }
    v
}

fn number(s: &str) -> Option<u32> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut n: u64 = 0;
    for c in d.bytes() {
        n = n * 10 + (c - b'0') as u64;
        if n > u32::MAX as u64 {
            return None;
        }
    }
    Some(n as u32)
}

/// All the tokens of a file, up to the end or the first error.
pub fn tokens(b: &[u8]) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    let mut ml = false;
    let mut first = true;
    for l in lines(b) {
        let l = match l {
            None => {
                out.push(Err(TokBad::Read));
                return out;
            }
            Some(l) => l,
        };
        let t = l.trim();
        if t.is_empty() || t.starts_with(';') {
            continue;
        }
        if !first && !ml {
            out.push(Ok(Tok::Nl));
        }
        first = false;
        let c: Vec<char> = l.chars().collect();
        let mut i = 0;
        while i < c.len() {
            if c[i].is_whitespace() {
                while i < c.len() && c[i].is_whitespace() {
                    i += 1;
                }
                out.push(Ok(Tok::Blank));
            } else if c[i] == ';' {
                break;
            } else if c[i] == '(' || c[i] == ')' {
                let open = c[i] == '(';
                if open == ml {
                    out.push(Err(if open { TokBad::Open } else { TokBad::Close }));
                    return out;
                }
                ml = open;
                i += 1;
            } else {
                let quoted = c[i] == '"';
                let dir = c[i] == '$';
                if quoted || dir {
                    i += 1;
                }
                let mut s = String::new();
                let mut closed = false;
                while i < c.len() {
                    if c[i] == '\\' {
                        if i + 1 == c.len() {
                            out.push(Err(TokBad::Escape));
                            return out;
                        }
                        s.push(c[i + 1]);
                        i += 2;
                    } else if quoted && c[i] == '"' {
                        closed = true;
                        i += 1;
                        break;
                    } else if !quoted && (c[i].is_whitespace() || "();".contains(c[i])) {
                        break;
                    } else {
                        s.push(c[i]);
                        i += 1;
                    }
                }
                let t = if quoted {
                    if closed {
                        Ok(Tok::Q(s))
                    } else {
                        Err(TokBad::Quote)
                    }
                } else if dir {
                    match s.as_str() {
                        "ORIGIN" => Ok(Tok::Origin),
                        "INCLUDE" => Ok(Tok::Include),
                        _ => Err(TokBad::Dir),
                    }
                } else if s == "@" {
                    Ok(Tok::At)
                } else {
                    Ok(number(&s).map(Tok::N).unwrap_or(Tok::S(s)))
                };
                let stop = t.is_err();
                out.push(t);
                if stop {
                    return out;
                }
            }
        }
    }
    out.push(if ml { Err(TokBad::NoClose) } else { Ok(Tok::End) });
    out
}

fn seen_tok(t: Result<Token, TokenErr>) -> T {
    match t {
        Ok(Token::OriginDir) => Ok(Tok::Origin),
        Ok(Token::IncludeDir) => Ok(Tok::Include),
        Ok(Token::QString(s)) => Ok(Tok::Q(s)),
        Ok(Token::String(s)) => Ok(Tok::S(s)),
        Ok(Token::Number(n)) => Ok(Tok::N(n)),
        Ok(Token::Blank) => Ok(Tok::Blank),
        Ok(Token::NewLine) => Ok(Tok::Nl),
        Ok(Token::End) => Ok(Tok::End),
        Ok(Token::At) => Ok(Tok::At),
        Err(TokenErr::DirMalformed(_)) => Err(TokBad::Dir),
        Err(TokenErr::QStrNotClosed(_)) => Err(TokBad::Quote),
        Err(TokenErr::MlUnexpectedOpen) => Err(TokBad::Open),
        Err(TokenErr::MlUnexpectedClose) => Err(TokBad::Close),
        Err(TokenErr::MlMissingClose) => Err(TokBad::NoClose),
        Err(TokenErr::InvalidEscape) => Err(TokBad::Escape),
        Err(TokenErr::ReadErr(_)) => Err(TokBad::Read),
    }
}

fn gen_file(r: &mut Rng) -> Vec<u8> {
    let parts = [
        "a", "b.c", "@", "12", "+7", "4294967295", "4294967296", "007", "0", " ", "  ", "\t", "\n", "\n", "\r\n", "\n\n", "(", ")", ";", "; comment ( \" \\",
        "\\", "\\;", "\\(", "\\\"", "\\ ", "\\@", "\\\\", "\\$", "\\1", "\"", "\"q r\"", "\"a;b(c)\"", "\"\\\"\"", "\"\"", "$ORIGIN", "$INCLUDE", "$TTL", "$", "$ORI\\GIN", "IN", "A",
        "é", "\u{a0}", "\u{3000}", "x\"y", "x$y", "x@", "@@", "\u{1}",
    ];
    let mut b = vec![];
    let most = if r.chance(1, 10) { 60 } else { 14 };
    for _ in 0..r.range(0, most) {
        b.extend(r.pick(&parts).as_bytes());
        if r.chance(1, 120) {
            b.push(r.next() as u8);
        }
    }
    b
}

pub fn gen_c09(r: &mut Rng, part: usize, parts: usize, emit: Emit) {
    // every file of up to three pieces
    let p = ["a", "@", "12", "99999999999", " ", "\n", "\r\n", "(", ")", ";", "\\", "\"", "$ORIGIN", "$INCLUDE", "$X", "\u{3000}", "+1", "\\;", "\\\\", "-3", "é"];
    let mut n = 0;
    for a in p {
        for b in p {
            for c in p {
                for d in ["", "b", " ", "\n", ")", "\""] {
                    n += 1;
                    if n % parts == part && !emit(format!("{} {}", hex(format!("{}{}{}{}", a, b, c, d).as_bytes()), "nnnnnn")) {
                        return;
                    }
                }
            }
        }
    }
    loop {
        let f = if r.chance(1, 4) { gen_zones(r).files[0].1.clone().into_bytes() } else { gen_file(r) };
        let ops: String = (0..r.range(1, 20)).map(|_| *r.pick(&['n', 'n', 'n', 'b', 'p', 'q'])).collect();
        if !emit(format!("x{} {}", hex(&f), ops)) {
            return;
        }
    }
}

pub fn check_c09(case: &str) -> Res {
    enter_scratch();
    let (f, ops) = case.split_once(' ').unwrap_or((case, "n"));
    let b = unhex(f.trim_start_matches('x'));
    std::fs::write("tokens", &b).unwrap();
    let want = tokens(&b);
    let mut real = Tokenizer::from_file("tokens").map_err(|e| format!("the file does not open: {}", e))?;
    let mut at = 0;
    let mut ops: Vec<char> = ops.chars().collect();
    // the operations given, then all the tokens left
    let given = ops.len();
    ops.extend(std::iter::repeat('n').take(want.len() + 2));
    for (i, op) in ops.iter().enumerate() {
        let get = |k: usize| want[k.min(want.len() - 1)].clone();
        let mut j = at;
        if *op == 'b' || *op == 'q' {
            while get(j) == Ok(Tok::Blank) {
                j += 1;
            }
        }
        let w = get(j);
        let g = seen_tok(match op {
            'n' => real.next(),
            'b' => real.next_after_blanks(),
            'p' => real.peek(),
            _ => real.peek_after_blanks(),
        });
        ensure!(g == w, "operation {} ({}{}) gives {:?}, expected {:?}", i, op, if i >= given { ", reading the rest" } else { "" }, g, w);
        if w.is_err() || w == Ok(Tok::End) {
            break;
        }
        at = match op {
            'n' | 'b' => j + 1,
            _ => j,
        };
    }
    Ok(want.len() > 2)
}

// ------------------------------------------------------------------ zones

pub struct Zones {
    pub zone: String,
    pub ttl: u32,
    /// zone, starting ttl, minimum ttl, file
    pub subs: Vec<(String, u32, u32, String)>,
    /// the first one is the authoritative file
    pub files: Vec<(String, String)>,
}

pub fn enc_zones(z: &Zones) -> String {
    let mut s = format!("{} {}", word(&z.zone), z.ttl);
    for (n, a, b, f) in &z.subs {
        s.push_str(&format!(" S {} {} {} {}", word(n), a, b, word(f)));
    }
    for (n, t) in &z.files {
        s.push_str(&format!(" F {} {}", word(n), word(t)));
    }
    s
}

pub fn dec_zones(case: &str) -> Zones {
    let w: Vec<&str> = case.split_whitespace().collect();
    let mut z = Zones { zone: unword(w[0]), ttl: w[1].parse().unwrap(), subs: vec![], files: vec![] };
    let mut i = 2;
    while i < w.len() {
        if w[i] == "S" {
            z.subs.push((unword(w[i + 1]), w[i + 2].parse().unwrap(), w[i + 3].parse().unwrap(), unword(w[i + 4])));
            i += 5;
        } else {
            z.files.push((unword(w[i + 1]), unword(w[i + 2])));
            i += 3;
        }
    }
    z
}

/// Loads zones with the code under test.
pub fn load_real(z: &Zones) -> Result<ManagedZone, String> {
    enter_scratch();
    for (n, t) in &z.files {
        std::fs::write(n, t).unwrap();
    }
    let r = parse_zone_files(ParsingParams {
        file_path: z.files[0].0.clone(),
        zone: name(&z.zone),
        starting_ttl: z.ttl,
        sub_zones: z
            .subs
            .iter()
            .map(|(n, a, b, f)| SubParsingParams { file_path: f.clone(), zone: name(n), starting_ttl: *a, min_ttl: *b })
            .collect(),
    });
    for (n, _) in &z.files {
        let _ = std::fs::remove_file(n);
    }
    r.map_err(|e| format!("{:?}", e))
}

pub struct Loaded {
    pub auth: Vec<Rec>,
    pub subs: Vec<(String, Vec<Rec>)>,
}

type P<X> = Result<X, String>;

fn bad<X>(s: &str) -> P<X> {
    Err(s.to_string())
}

struct Reader {
    t: Vec<T>,
    i: usize,
}

impl Reader {
    fn of(z: &Zones, file: &str) -> P<Reader> {
        match z.files.iter().find(|f| f.0 == file) {
            None => bad("no such file"),
            Some(f) => Ok(Reader { t: tokens(f.1.as_bytes()), i: 0 }),
        }
    }
    fn at(&self, i: usize) -> P<Tok> {
        self.t[i.min(self.t.len() - 1)].clone().map_err(|e| format!("{:?}", e))
    }
    fn next(&mut self) -> P<Tok> {
        let t = self.at(self.i)?;
        self.i += 1;
        Ok(t)
    }
    fn word(&mut self) -> P<Tok> {
        loop {
            let t = self.next()?;
            if t != Tok::Blank {
                return Ok(t);
            }
        }
    }
    fn look(&self) -> P<Tok> {
        let mut i = self.i;
        while self.at(i)? == Tok::Blank {
            i += 1;
        }
        self.at(i)
    }
    fn text(&mut self) -> P<String> {
        match self.word()? {
            Tok::S(s) => Ok(s),
            t => bad(&format!("text wanted, got {:?}", t)),
        }
    }
    fn num(&mut self) -> P<u32> {
        match self.word()? {
            Tok::N(n) => Ok(n),
            t => bad(&format!("number wanted, got {:?}", t)),
        }
    }
    fn eol(&mut self) -> P<()> {
        match self.word()? {
            Tok::Nl | Tok::End => Ok(()),
            t => bad(&format!("end of line wanted, got {:?}", t)),
        }
    }
    fn chars(&mut self) -> P<String> {
        let (s, q) = match self.word()? {
            Tok::S(s) => (s, false),
            Tok::Q(s) => (s, true),
            t => return bad(&format!("string wanted, got {:?}", t)),
        };
        if s.len() > 255 || !s.is_ascii() || (!q && s.contains(' ')) {
            return bad("bad string");
        }
        Ok(s)
    }
}

fn full(origin: &str, s: &str) -> P<String> {
    let n = if s == "@" {
        origin.to_string()
    } else if s.ends_with('.') {
        s.to_string()
    } else if origin == "." {
        format!("{}.", s)
    } else {
        format!("{}.{}", s, origin)
    };
    if valid_name(&n) {
        Ok(n)
    } else {
        bad("bad name")
    }
}

fn ip(s: &str) -> P<[u8; 4]> {
    let p: Vec<&str> = s.split('.').collect();
    if p.len() != 4 {
        return bad("bad address");
    }
    let mut a = [0u8; 4];
    for (i, x) in p.iter().enumerate() {
        let ok = !x.is_empty() && x.len() <= 3 && x.bytes().all(|c| c.is_ascii_digit()) && (x.len() == 1 || !x.starts_with('0'));
        let v: u32 = if ok { x.parse().unwrap() } else { 999 };
        if v > 255 {
            return bad("bad address");
        }
        a[i] = v as u8;
    }
    Ok(a)
}

const TYPES: [(&str, u16); 20] = [
    ("A", 1), ("NS", 2), ("MD", 3), ("MF", 4), ("CNAME", 5), ("SOA", 6), ("MB", 7), ("MG", 8), ("MR", 9), ("NULL", 10), ("WKS", 11),
    ("PTR", 12), ("HINFO", 13), ("MINFO", 14), ("MX", 15), ("TXT", 16), ("AXFR", 252), ("MAILB", 253), ("MAILA", 254), ("*", 255),
];

fn rtype(s: &str) -> P<u16> {
    match TYPES.iter().find(|t| t.0 == s) {
        None => bad("unknown type"),
        Some(t) => Ok(t.1),
    }
}

const CLASSES: [&str; 5] = ["IN", "CS", "CH", "HS", "*"];

/// The time to live and class, in either order, both optional.
fn ttl_class(r: &mut Reader) -> P<(Option<u32>, Option<String>)> {
    let class = |r: &mut Reader| -> P<Option<String>> {
        Ok(match r.look()? {
            Tok::S(s) if CLASSES.contains(&s.as_str()) => {
                r.word()?;
                Some(s)
            }
            _ => None,
        })
    };
    match r.look()? {
        Tok::N(n) => {
            r.word()?;
            Ok((Some(n), class(r)?))
        }
        Tok::S(_) => match class(r)? {
            None => Ok((None, None)),
            Some(c) => match r.look()? {
                Tok::N(n) => {
                    r.word()?;
                    Ok((Some(n), Some(c)))
                }
                _ => Ok((None, Some(c))),
            },
        },
        t => bad(&format!("type wanted, got {:?}", t)),
    }
}

fn data(r: &mut Reader, t: u16, origin: &str) -> P<Data> {
    Ok(match t {
        1 => Data::A(ip(&r.text()?)?),
        2 => {
            let s = r.text()?;
            Data::NS(full(origin, &s)?)
        }
        5 => match r.word()? {
            Tok::At => Data::CNAME(origin.to_string()),
            Tok::S(s) => Data::CNAME(full(origin, &s)?),
            _ => return bad("name wanted"),
        },
        6 => {
            let a = full(origin, &r.text()?)?;
            let b = full(origin, &r.text()?)?;
            let mut v = [0; 5];
            for x in &mut v {
                *x = r.num()?;
            }
            Data::SOA(a, b, v)
        }
        11 => {
            let a = ip(&r.text()?)?;
            let p = match r.text()?.to_uppercase().as_str() {
                "TCP" => 6,
                "UDP" => 17,
                _ => return bad("protocol"),
            };
            while let Tok::S(_) = r.look()? {
                r.word()?;
            }
            Data::WKS(a, p, vec![])
        }
        12 => {
            let s = r.text()?;
            if !s.ends_with('.') || !valid_name(&s) {
                return bad("bad name");
            }
            Data::PTR(s)
        }
        13 => {
            let a = r.chars()?;
            Data::HINFO(a, r.chars()?)
        }
        15 => {
            let p = r.num()?;
            if p > 65535 {
                return bad("priority");
            }
            let s = r.text()?;
            Data::MX(p as u16, full(origin, &s)?)
        }
        16 => {
            let mut v = vec![];
            let mut n = 0;
            while !matches!(r.look()?, Tok::Nl | Tok::End) {
                let s = r.chars()?;
                n += s.len() + 1;
                v.push(s);
            }
            if v.is_empty() || n > 65535 {
                return bad("strings");
            }
            Data::TXT(v)
        }
        _ => return bad("type not supported"),
    })
}

struct Ctx<'a> {
    z: &'a Zones,
    min: u32,
}

impl<'a> Ctx<'a> {
    fn ours(&self, n: &str) -> P<()> {
        if in_zone(n, &self.z.zone) && !self.z.subs.iter().any(|s| in_zone(n, &s.0)) {
            Ok(())
        } else {
            bad("not in the zone")
        }
    }
}

fn load_auth(z: &Zones) -> P<Vec<Rec>> {
    let mut r = Reader::of(z, &z.files[0].0)?;
    let mut c = Ctx { z, min: 0 };
    c.ours(&z.zone)?;
    let node = match r.next()? {
        Tok::S(s) => full(&z.zone, &s)?,
        Tok::Blank | Tok::At => z.zone.clone(),
        _ => return bad("owner wanted"),
    };
    if node != z.zone {
        return bad("SOA not at the top");
    }
    let (ttl, class) = ttl_class(&mut r)?;
    if class.as_deref() != Some("IN") {
        return bad("class");
    }
    let ttl = ttl.unwrap_or(z.ttl);
    if r.text()? != "SOA" {
        return bad("no SOA");
    }
    let d = data(&mut r, 6, &z.zone)?;
    if let Data::SOA(_, _, v) = &d {
        c.min = v[4];
    }
    if ttl < c.min {
        return bad("ttl");
    }
    r.eol()?;
    let soa = Rec { node, ttl, data: d };
    let mut out = entries(&c, &mut r, &z.zone, ttl, 0)?;
    out.push(soa);
    Ok(out)
}

fn entries(c: &Ctx, r: &mut Reader, origin: &str, ttl: u32, depth: usize) -> P<Vec<Rec>> {
    let (mut origin, mut ttl) = (origin.to_string(), ttl);
    let mut out = vec![];
    loop {
        let first = r.next()?;
        let node = match first {
            Tok::End => return Ok(out),
            Tok::Origin => {
                let s = r.text()?;
                if !s.ends_with('.') || !valid_name(&s) {
                    return bad("bad origin");
                }
                c.ours(&s)?;
                r.eol()?;
                origin = s;
                continue;
            }
            Tok::Include => {
                let f = match r.word()? {
                    Tok::N(n) => n.to_string(),
                    Tok::S(s) => s,
                    _ => return bad("file wanted"),
                };
                let mut o = origin.clone();
                if let Tok::S(s) = r.look()? {
                    r.word()?;
                    o = full(&origin, &s)?;
                    c.ours(&o)?;
                }
                r.eol()?;
                if depth >= 16 {
                    return bad("too deep");
                }
                let mut inner = Reader::of(c.z, &f)?;
                out.extend(entries(c, &mut inner, &o, ttl, depth + 1)?);
                continue;
            }
            Tok::Blank | Tok::At => origin.clone(),
            Tok::S(s) => {
                let n = full(&origin, &s)?;
                c.ours(&n)?;
                n
            }
            _ => return bad("unexpected"),
        };
        let (t, class) = ttl_class(r)?;
        if class.is_some() && class.as_deref() != Some("IN") {
            return bad("class");
        }
        let t = t.unwrap_or(ttl);
        if t < c.min {
            return bad("ttl");
        }
        let ty = rtype(&r.text()?)?;
        if ty == 6 || !supported(ty) {
            return bad("type");
        }
        let d = data(r, ty, &origin)?;
        r.eol()?;
        ttl = t;
        out.push(Rec { node, ttl: t, data: d });
    }
}

fn load_sub(z: &Zones, s: &(String, u32, u32, String)) -> P<Vec<Rec>> {
    let mut r = Reader::of(z, &s.3)?;
    let mut ttl = s.1;
    let mut out = vec![];
    loop {
        let node = match r.next()? {
            Tok::End => return Ok(out),
            Tok::Blank | Tok::At => s.0.clone(),
            Tok::S(x) => {
                let n = full(&s.0, &x)?;
                if !in_zone(&n, &s.0) {
                    return bad("not in the sub zone");
                }
                n
            }
            _ => return bad("unexpected"),
        };
        let (t, class) = ttl_class(&mut r)?;
        if class.is_some() && class.as_deref() != Some("IN") {
            return bad("class");
        }
        let t = t.unwrap_or(ttl);
        if t < s.2 {
            return bad("ttl");
        }
        let ty = rtype(&r.text()?)?;
        if ty != 1 && ty != 2 {
            return bad("type");
        }
        let d = data(&mut r, ty, &s.0)?;
        r.eol()?;
        ttl = t;
        out.push(Rec { node, ttl: t, data: d });
    }
}

/// The facts stated by C08 about loaded zones.
fn well_formed(z: &Zones, l: &Loaded) -> P<()> {
    let soas: Vec<&Rec> = l.auth.iter().filter(|r| type_of(&r.data) == 6).collect();
    if soas.len() != 1 || soas[0].node != z.zone {
        return bad("not exactly one SOA record at the top node");
    }
    let min = match &soas[0].data {
        Data::SOA(_, _, v) => v[4],
        _ => 0,
    };
    if !l.auth.iter().any(|r| type_of(&r.data) == 2) {
        return bad("no NS records");
    }
    for r in &l.auth {
        if type_of(&r.data) == 2 && r.node != z.zone {
            return bad(&format!("NS record not at the top node: {:?}", r));
        }
        if !in_zone(&r.node, &z.zone) || z.subs.iter().any(|s| in_zone(&r.node, &s.0)) {
            return bad(&format!("record not of the zone: {:?}", r));
        }
        if r.ttl < min {
            return bad(&format!("TTL below the minimum: {:?}", r));
        }
    }
    for (i, (n, v)) in l.subs.iter().enumerate() {
        if !v.iter().any(|r| type_of(&r.data) == 2) {
            return bad("no NS records in a sub zone");
        }
        for r in v {
            if r.ttl < z.subs[i].2 {
                return bad(&format!("TTL below the minimum: {:?}", r));
            }
            match &r.data {
                Data::NS(t) => {
                    if r.node != *n {
                        return bad(&format!("NS record not at the top node of the sub zone: {:?}", r));
                    }
                    for (m, w) in &l.subs {
                        if in_zone(t, &z.zone) && in_zone(t, m) && !w.iter().any(|a| a.node == *t && type_of(&a.data) == 1) {
                            return bad(&format!("no address for the nameserver of {:?}", r));
                        }
                    }
                }
                Data::A(_) => {
                    if !in_zone(&r.node, n) {
                        return bad(&format!("address outside the sub zone: {:?}", r));
                    }
                    if !l.subs.iter().any(|(_, w)| w.iter().any(|s| s.data == Data::NS(r.node.clone()))) {
                        return bad(&format!("address of no nameserver: {:?}", r));
                    }
                }
                _ => return bad(&format!("record in a sub zone: {:?}", r)),
            }
        }
    }
    Ok(())
}

pub fn load_model(z: &Zones) -> P<Loaded> {
    let auth = load_auth(z)?;
    let mut subs = vec![];
    for s in &z.subs {
        subs.push((s.0.clone(), load_sub(z, s)?));
    }
    let l = Loaded { auth, subs };
    well_formed(z, &l)?;
    Ok(l)
}

/// All the records of a zone, by type.
fn records_of(z: &Zone) -> Result<Vec<Rec>, String> {
    let mut v = vec![];
    for (_, t) in TYPES {
        for r in z.get_all_of_type(real_type(t)) {
            let m = model_rec(r)?;
            ensure!(type_of(&m.data) == t, "record among those of type {}: {:?}", t, m);
            v.push(m);
        }
    }
    Ok(v)
}

fn same_zone(what: &str, z: &Zone, want: &[Rec]) -> Result<(), String> {
    let mut by: HashMap<(String, u16), Vec<Rec>> = HashMap::new();
    for r in want {
        by.entry((r.node.clone(), type_of(&r.data))).or_default().push(r.clone());
        for (_, t) in TYPES {
            by.entry((r.node.clone(), t)).or_default();
        }
    }
    for ((n, t), w) in &by {
        let g: Vec<Rec> = match z.get(&name(n), real_type(*t)) {
            None => vec![],
            Some(v) => v.iter().map(model_rec).collect::<Result<_, _>>()?,
        };
        ensure!(g == *w, "{}: records of {} type {}: {:?}, written {:?}", what, n, t, g, w);
    }
    let all = records_of(z)?;
    ensure!(all.len() == want.len(), "{}: {} records, {} written", what, all.len(), want.len());
    let key = |r: &Rec| format!("{:?}", r);
    let (mut a, mut b): (Vec<String>, Vec<String>) = (all.iter().map(key).collect(), want.iter().map(key).collect());
    a.sort();
    b.sort();
    for (x, y) in a.iter().zip(&b) {
        ensure!(x == y, "{}: record {}, written {}", what, x, y);
    }
    Ok(())
}

pub fn check_c20(case: &str) -> Res {
    let z = dec_zones(case);
    let want = load_model(&z);
    let got = load_real(&z);
    match (got, want) {
        (Err(_), Err(_)) => Ok(false),
        (Err(e), Ok(_)) => Err(format!("refused: {}", e)),
        (Ok(_), Err(e)) => Err(format!("accepted, to be refused: {}", e)),
        (Ok(g), Ok(w)) => {
            same_zone("zone", &g.auth_zone, &w.auth)?;
            ensure!(text(&g.auth_zone.zone) == z.zone, "the zone is {}", g.auth_zone.zone);
            ensure!(g.sub_zones.len() == w.subs.len(), "{} sub zones", g.sub_zones.len());
            for (a, b) in g.sub_zones.iter().zip(&w.subs) {
                ensure!(text(&a.zone) == b.0, "the sub zone {} is {}", b.0, a.zone);
                same_zone("sub zone", a, &b.1)?;
            }
            Ok(true)
        }
    }
}

pub fn check_c08(case: &str) -> Res {
    let z = dec_zones(case);
    let want = load_model(&z);
    match load_real(&z) {
        Err(e) => {
            ensure!(want.is_err(), "refused: {}", e);
            Ok(false)
        }
        Ok(g) => {
            let auth = records_of(&g.auth_zone)?;
            let mut subs = vec![];
            for s in &g.sub_zones {
                subs.push((text(&s.zone), records_of(s)?));
            }
            ensure!(subs.len() == z.subs.len(), "{} sub zones", subs.len());
            well_formed(&z, &Loaded { auth, subs })?;
            if let Err(e) = want {
                return Err(format!("accepted, to be refused: {}", e));
            }
            Ok(true)
        }
    }
}

// ------------------------------------------------------------------ zone files as inputs

struct Gen<'a> {
    r: &'a mut Rng,
    /// one entry in how many is not as it should be
    faults: usize,
    /// no more than one of them
    once: bool,
    words: Vec<String>,
}

impl<'a> Gen<'a> {
    fn fault(&mut self) -> bool {
        let f = self.faults > 0 && self.r.chance(1, self.faults);
        if f && self.once {
            self.faults = 0;
        }
        f
    }
    fn ws(&mut self) -> String {
        (*self.r.pick(&[" ", " ", " ", "\t", "  ", " \t "])).to_string()
    }
    /// A name written relative to the origin, or not.
    fn write_name(&mut self, n: &str, origin: &str) -> String {
        if n == origin && self.r.chance(1, 3) {
            return "\\@".replace('\\', if self.r.chance(1, 4) { "\\" } else { "" });
        }
        if n != origin && in_zone(n, origin) && self.r.chance(2, 3) {
            let k = if origin == "." { 1 } else { origin.len() + 1 };
            let rel = &n[..n.len() - k];
            if !rel.is_empty() && number(rel).is_none() {
                return rel.to_string();
            }
        }
        n.to_string()
    }
    /// A name which is not one of the zone, most of the time.
    fn strange(&mut self, zone: &str, subs: &[String]) -> String {
        if !subs.is_empty() && self.r.chance(2, 3) {
            let s = self.r.pick(subs).clone();
            self.below(&s)
        } else {
            self.any_name(zone)
        }
    }
    fn below(&mut self, zone: &str) -> String {
        let mut s = String::new();
        for _ in 0..*self.r.pick(&[0usize, 1, 1, 1, 2, 2, 3]) {
            s.push_str(&self.r.pick(&self.words).clone());
            s.push('.');
        }
        if zone == "." && s.is_empty() {
            return ".".to_string();
        }
        if zone != "." {
            s.push_str(zone);
        }
        s
    }
    fn any_name(&mut self, zone: &str) -> String {
        if self.r.chance(1, 3) {
            let o = (*self.r.pick(&["example.net.", "com.", ".", "notexample.com.", "ns.other.org."])).to_string();
            o
        } else {
            self.below(zone)
        }
    }
    fn string(&mut self) -> String {
        let n = *self.r.pick(&[0usize, 1, 1, 3, 5, 9, 255]);
        let n = if self.fault() { 256 } else { n };
        let quoted = n == 0 || self.r.chance(1, 2);
        let mut s = String::new();
        for _ in 0..n {
            let c = *self.r.pick(&['a', 'b', '1', 'x', ';', '(', ')', '"', '\\', ' ', '@', '.']);
            if c == ' ' && !quoted {
                s.push('z');
            } else if "();\"\\".contains(c) {
                s.push('\\');
                s.push(c);
            } else {
                s.push(c);
            }
        }
        if self.fault() {
            s.push('é');
        }
        if quoted {
            format!("\"{}\"", s)
        } else {
            format!("v{}", s).chars().take(if n == 255 { s.chars().count() } else { 10000 }).collect()
        }
    }
    fn ttl(&mut self, min: u32) -> u32 {
        if self.fault() && min > 0 {
            return min - 1;
        }
        match self.r.below(4) {
            0 => min,
            1 => u32::MAX,
            _ => min.saturating_add(self.r.below(1000) as u32),
        }
    }
    fn eol(&mut self) -> String {
        let e = *self.r.pick(&["\n", "\n", "\n", " \n", "\r\n", " ; note\n", "\n\n", "\n; ( \" comment\n", ";\\\n", "\n   \n"]);
        e.to_string()
    }
    /// The fields of an entry on one line, or on more between parentheses.
    fn join(&mut self, first: &str, fields: &[String]) -> String {
        let mut s = first.to_string();
        let open = if self.r.chance(1, 4) { self.r.below(fields.len()) } else { usize::MAX };
        for (i, f) in fields.iter().enumerate() {
            s.push_str(&self.ws());
            if i == open {
                s.push_str(*self.r.pick(&["(", "( ", "(\n", "( ; x\n "]));
            }
            s.push_str(f);
            if i > open && self.r.chance(1, 3) {
                s.push_str(*self.r.pick(&["\n", " ; c\n", "\n\n"]));
            } else if i == open && i + 1 < fields.len() && self.r.chance(1, 2) {
                s.push_str("\n");
            }
        }
        if open != usize::MAX {
            s.push_str(*self.r.pick(&[")", " )", "\n)"]));
        }
        if self.r.chance(1, 300) {
            s.push(')');
        }
        s
    }
    fn data(&mut self, t: u16, zone: &str, origin: &str) -> Vec<String> {
        let ip = {
            let a = gen_ip(self.r);
            let s = format!("{}.{}.{}.{}", a[0], a[1], a[2], a[3]);
            if self.fault() {
                (*self.r.pick(&["1.2.3", "1.2.3.256", "1.2.3.04", "1.2.3.4.5", "a", "1..2.3"])).to_string()
            } else {
                s
            }
        };
        let n = self.any_name(zone);
        let n = if self.fault() { (*self.r.pick(&["-a", "a..b", "7", "a_b", "@", "x-."])).to_string() } else { self.write_name(&n, origin) };
        let n_at = n.replace('@', "\\@");
        match t {
            1 => vec![ip],
            2 => vec![if n == "@" || n == "\\@" { origin.to_string() } else { n_at }],
            5 => vec![n],
            6 => vec!["ns".into(), "mail".into(), "1".into(), "2".into(), "3".into(), "4".into(), "0".into()],
            11 => {
                let mut v = vec![ip, (*self.r.pick(&["TCP", "UDP", "tcp", "Udp", "ICMP"])).to_string()];
                for _ in 0..self.r.below(3) {
                    v.push((*self.r.pick(&["smtp", "domain"])).to_string());
                }
                v
            }
            12 => {
                let n = self.any_name(zone);
                vec![n]
            }
            13 => vec![self.string(), self.string()],
            15 => {
                let p = if self.fault() { 65536 } else { *self.r.pick(&[0u32, 10, 65535, 300]) };
                vec![p.to_string(), if n == "@" || n == "\\@" { origin.to_string() } else { n_at }]
            }
            16 => {
                let k = if self.r.chance(1, 60) { self.r.range(250, 260) } else { self.r.range(1, 4) };
                if k > 200 {
                    (0..k).map(|_| format!("\"{}\"", "q".repeat(255))).collect()
                } else {
                    (0..k).map(|_| self.string()).collect()
                }
            }
            _ => vec!["x".into()],
        }
    }
    /// One record entry.
    fn record(&mut self, owner: &str, origin: &str, t: u16, ttl: Option<u32>, zone: &str) -> String {
        let first = if owner == origin && self.r.chance(1, 2) { String::new() } else { self.write_name(owner, origin) };
        let class = if self.fault() { Some(*self.r.pick(&["CH", "CS", "HS", "*"])) } else if self.r.chance(1, 2) { Some("IN") } else { None };
        let mut f: Vec<String> = vec![];
        if let Some(x) = ttl {
            f.push(x.to_string());
        }
        if let Some(c) = class {
            f.push(c.to_string());
            if f.len() == 2 && self.r.chance(1, 2) {
                f.swap(0, 1);
            }
        }
        let ty = TYPES.iter().find(|x| x.1 == t).unwrap().0.to_string();
        f.push(if self.fault() { (*self.r.pick(&["AAAA", "a", "MD", "NULL", "AXFR", "*", "MINFO"])).to_string() } else { ty });
        f.extend(self.data(t, zone, origin));
        if self.fault() {
            if self.r.chance(1, 2) {
                f.pop();
            } else {
                f.push("extra".to_string());
            }
        }
        let s = self.join(&first, &f);
        s + &self.eol()
    }
}

/// The records of an authoritative file; files named in include directives are made too.
fn gen_entries(g: &mut Gen, zone: &str, subs: &[String], min: u32, origin0: &str, ttl0: u32, n: usize, depth: usize, files: &mut Vec<(String, String)>) -> String {
    let mut s = String::new();
    let mut origin = origin0.to_string();
    let mut have_ttl = ttl0 >= min;
    for _ in 0..n {
        let ours = |g: &mut Gen| -> String {
            for _ in 0..20 {
                let o = g.below(zone);
                if !subs.iter().any(|x| in_zone(&o, x)) {
                    return o;
                }
            }
            zone.to_string()
        };
        match g.r.below(12) {
            0 => {
                let o = ours(g);
                let o = if g.fault() {
                    let s = g.strange(zone, subs);
                    (*g.r.pick(&["sub.", "relative", "example.net.", "@", &s, &s])).to_string()
                } else {
                    o
                };
                let d = if g.r.chance(1, 8) { "$ORI\\GIN" } else { "$ORIGIN" };
                s.push_str(&g.join(d, &[o.clone()]));
                s.push_str(&g.eol());
                if o.ends_with('.') {
                    origin = o;
                }
            }
            1 if depth < 3 => {
                let f = if g.r.chance(1, 10) { format!("{}", files.len()) } else { format!("inc{}", files.len()) };
                let mut o = ours(g);
                let mut with = g.r.chance(1, 2);
                if g.fault() {
                    o = g.strange(zone, subs);
                    with = true;
                }
                let mut fs = vec![f.clone()];
                if with {
                    let w = g.write_name(&o, &origin);
                    fs.push(if w == "@" { "\\@".into() } else { w });
                }
                s.push_str(&g.join("$INCLUDE", &fs));
                s.push_str(&g.eol());
                files.push((f.clone(), String::new()));
                let i = files.len() - 1;
                let k = g.r.below(4);
                let o = if with { o } else { origin.clone() };
                let ttl = if have_ttl { min } else { ttl0 };
                let t = gen_entries(g, zone, subs, min, &o, ttl, k, depth + 1, files);
                files[i].1 = t;
                if g.fault() {
                    files[i].0 = "missing".into();
                }
            }
            _ => {
                let mut t = *g.r.pick(&[1u16, 1, 1, 5, 11, 12, 13, 15, 16, 16]);
                if g.fault() {
                    t = 6;
                }
                let mut o = if g.r.chance(1, 3) { origin.clone() } else { ours(g) };
                if g.fault() {
                    o = g.strange(zone, subs);
                }
                if g.r.chance(1, 8) {
                    t = 2;
                    if !g.fault() {
                        o = zone.to_string();
                    }
                }
                let ttl = if have_ttl && g.r.chance(1, 2) { None } else { Some(g.ttl(min)) };
                have_ttl = true;
                s.push_str(&g.record(&o, &origin, t, ttl, zone));
            }
        }
    }
    s
}

pub fn gen_zones(r: &mut Rng) -> Zones {
    let zone = (*r.pick(&["example.com.", "example.com.", "com.", ".", "a.b.c."])).to_string();
    let faults = if r.chance(2, 3) { 0 } else { 25 };
    let once = r.chance(2, 3);
    let mut g = Gen { r, faults, once, words: ["a", "b", "sub", "ns", "www", "ns-1", "Sub", "x7"].iter().map(|s| s.to_string()).collect() };
    let top = |s: &str| if zone == "." { format!("{}.", s) } else { format!("{}.{}", s, zone) };
    let mut subs: Vec<String> = vec![];
    for _ in 0..*g.r.pick(&[0usize, 0, 1, 1, 2, 3]) {
        let mut s = top(*g.r.pick(&["sub", "b", "a.sub", "x7"]));
        if g.fault() {
            s = (*g.r.pick(&["example.net.", "com.", "."])).to_string();
        }
        if !subs.contains(&s) || g.r.chance(1, 3) {
            subs.push(s);
        }
    }
    let min = *g.r.pick(&[0u32, 0, 60, 3600, u32::MAX]);
    let start = if g.r.chance(1, 2) { min } else { g.r.below(5000) as u32 };
    // the start of authority
    let mut f: Vec<String> = vec![];
    let soa_ttl = if start >= min && g.r.chance(1, 2) { None } else { Some(g.ttl(min)) };
    if let Some(t) = soa_ttl {
        f.push(t.to_string());
    }
    f.push(if g.fault() { "CH".into() } else { "IN".into() });
    if f.len() == 2 && g.r.chance(1, 2) {
        f.swap(0, 1);
    }
    if g.fault() {
        f.pop();
    }
    f.push(if g.fault() { "NS".into() } else { "SOA".into() });
    for _ in 0..2 {
        let n = g.any_name(&zone);
        let w = g.write_name(&n, &zone);
        f.push(if w == "@" { zone.clone() } else { w });
    }
    for _ in 0..4 {
        f.push(gen_u32(g.r).to_string());
    }
    f.push(min.to_string());
    let owner = if g.fault() { "b".to_string() } else { (*g.r.pick(&["", "@", &zone, "\\@"])).to_string() };
    let mut s = g.join(&owner, &f);
    s.push_str(&g.eol());
    let mut files = vec![("main".to_string(), String::new())];
    if g.r.chance(1, 25) {
        // files which include themselves, or each other
        s.push_str("@ 4294967295 NS ns.x.\n$INCLUDE loop\n");
        let k = g.r.range(1, 20);
        if g.r.chance(1, 2) {
            files.push(("loop".into(), "a 4294967295 A 1.2.3.4\n$INCLUDE loop\n".into()));
        } else {
            for i in 0..k {
                let n = if i == 0 { "loop".to_string() } else { format!("l{}", i) };
                let next = if i + 1 < k { format!("$INCLUDE l{}\n", i + 1) } else { String::new() };
                files.push((n, format!("a 4294967295 TXT v{}\n{}", i, next)));
            }
        }
    }
    if !g.fault() {
        // the nameservers of the zone
        let t = Some(g.ttl(min));
        s.push_str(&g.record(&zone, &zone, 2, t, &zone));
    }
    let n = g.r.below(7);
    let mut sofar = vec![];
    std::mem::swap(&mut files, &mut sofar);
    let body = gen_entries(&mut g, &zone, &subs, min, &zone, 0.max(min), n, 0, &mut sofar);
    files = sofar;
    files[0].1 = s + &body;
    if g.r.chance(1, 4) {
        while files[0].1.ends_with('\n') {
            files[0].1.pop();
        }
    }
    // the sub zones: some nameservers inside them, some outside
    let mut out = vec![];
    let mut ns: Vec<Vec<String>> = vec![];
    for sz in &subs {
        let mut v = vec![];
        for _ in 0..g.r.range(1, 3) {
            let n = match g.r.below(4) {
                0 => "ns.example.net.".to_string(),
                1 => {
                    let other = g.r.pick(&subs).clone();
                    g.below(&other)
                }
                2 => top("ns"),
                _ => g.below(sz),
            };
            v.push(n);
        }
        ns.push(v);
    }
    for (i, sz) in subs.iter().enumerate() {
        let min = *g.r.pick(&[0u32, 60, 4000]);
        let start = if g.r.chance(1, 2) { min } else { min + 5 };
        let mut s = String::new();
        if !g.fault() {
            for n in &ns[i] {
                let o = if g.fault() { "b".to_string() + "." + sz } else { sz.clone() };
                let w = g.write_name(n, sz);
                let w = if w == "@" || w == "\\@" { n.clone() } else { w };
                let first = if o == *sz && g.r.chance(1, 2) { String::new() } else { g.write_name(&o, sz) };
                let mut f = vec![];
                if g.r.chance(1, 2) {
                    f.push(g.ttl(min).to_string());
                }
                f.push("NS".into());
                f.push(w);
                s.push_str(&g.join(&first, &f));
                s.push_str(&g.eol());
            }
        }
        let mut todo: Vec<String> = vec![];
        for v in &ns {
            for n in v {
                if in_zone(n, sz) && !todo.contains(n) {
                    todo.push(n.clone());
                }
            }
        }
        if g.fault() {
            let near = ns.iter().flatten().find(|n| in_zone(n, sz) && *n != sz).cloned().unwrap_or(sz.clone());
            let up = match near.find('.') {
                Some(i) if i + 1 < near.len() && in_zone(&near[i + 1..], sz) => near[i + 1..].to_string(),
                _ => sz.clone(),
            };
            todo.push(match g.r.below(5) {
                0 => format!("lost.{}", sz),
                1 | 2 => up,
                3 => format!("x{}", near),
                _ => format!("a.{}", near),
            });
        }
        for n in todo {
            if g.fault() {
                continue;
            }
            for _ in 0..g.r.range(1, 2) {
                let ttl = if g.r.chance(1, 2) { Some(g.ttl(min)) } else { None };
                s.push_str(&g.record(&n, sz, 1, ttl, sz));
            }
        }
        if g.fault() {
            s.push_str("$ORIGIN x.\n");
        }
        if g.fault() {
            s.push_str("@ TXT a\n");
        }
        let f = format!("sub{}", i);
        files.push((f.clone(), s));
        out.push((sz.clone(), start, min, f));
    }
    Zones { zone, ttl: start, subs: out, files }
}

pub fn gen_c20(r: &mut Rng, _part: usize, _parts: usize, emit: Emit) {
    loop {
        let z = gen_zones(r);
        if !emit(enc_zones(&z)) {
            return;
        }
    }
}

pub fn gen_c08(r: &mut Rng, part: usize, parts: usize, emit: Emit) {
    gen_c20(r, part, parts, emit)
}
