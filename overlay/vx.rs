pub mod vx {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::hash::*;
verus! {

/// ASSUMED: a 64 bit target.
global size_of usize == 8;

// ------------------------------------------------------------------ memory

/// ASSUMED: fewer than 2^47 elements fit in the address space (one byte per element, 47 bits user space).
pub axiom fn axiom_vec_len<T>(v: Vec<T>)
    ensures v@.len() < 0x8000_0000_0000;

pub axiom fn axiom_slice_len<T>(v: &[T])
    ensures v@.len() < 0x8000_0000_0000;

/// ASSUMED: as above, for strings.
pub broadcast axiom fn axiom_str_len(s: &str)
    ensures #[trigger] s.spec_bytes().len() < 0x8000_0000_0000;

// ------------------------------------------------------------------ slices

/// ASSUMED: copying a slice into a vector clones its elements in order.
pub assume_specification<T> [<[T] as std::borrow::ToOwned>::to_owned] (x: &[T]) -> (r: std::vec::Vec<T>)
    where T: std::clone::Clone,
    ensures r@.len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> cloned(#[trigger] x@[i], r@[i]);

/// ASSUMED: numbers and their bytes in network order.
#[verifier::external_body]
pub fn vx_u16_from_be(b: [u8; 2]) -> (r: u16)
    ensures r as int == b@[0] * 256 + b@[1], r == ((b@[0] as u16) << 8) | b@[1] as u16,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_u32_from_be(b: [u8; 4]) -> (r: u32)
    ensures r as int == b@[0] * 16777216 + b@[1] * 65536 + b@[2] * 256 + b@[3],
        r == ((b@[0] as u32) << 24) | ((b@[1] as u32) << 16) | ((b@[2] as u32) << 8) | b@[3] as u32,
{ unimplemented!() }
pub trait VxBe<const N: usize>: Sized {
    spec fn vx_be(&self) -> Seq<u8>;
    fn vx_to_be_bytes(self) -> (r: [u8; N])
        ensures r@ == self.vx_be();
}
impl VxBe<2> for u16 {
    open spec fn vx_be(&self) -> Seq<u8> { seq![(*self >> 8) as u8, *self as u8] }
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 2]) { unimplemented!() }
}
impl VxBe<4> for u32 {
    open spec fn vx_be(&self) -> Seq<u8> { seq![(*self >> 24) as u8, (*self >> 16) as u8, (*self >> 8) as u8, *self as u8] }
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 4]) { unimplemented!() }
}

pub trait VxBytes {
    spec fn vx_bytes(&self) -> Seq<u8>;
}
impl VxBytes for Vec<u8> { open spec fn vx_bytes(&self) -> Seq<u8> { self@ } }
impl VxBytes for &Vec<u8> { open spec fn vx_bytes(&self) -> Seq<u8> { self@ } }
impl VxBytes for &[u8] { open spec fn vx_bytes(&self) -> Seq<u8> { self@ } }

pub trait VxExtend<B> {
    /// ASSUMED: Vec::extend appends the elements.
    fn vx_extend(&mut self, b: B);
}
impl<B: VxBytes> VxExtend<B> for Vec<u8> {
    #[verifier::external_body]
    fn vx_extend(&mut self, b: B)
        ensures final(self)@ == old(self)@ + b.vx_bytes(),
    { unimplemented!() }
}
pub trait VxVecU8 {
    /// ASSUMED: slice contains.
    fn vx_contains(&self, b: &u8) -> bool;
}
impl VxVecU8 for Vec<u8> {
    #[verifier::external_body]
    fn vx_contains(&self, b: &u8) -> (r: bool)
        ensures r == self@.contains(*b),
    { unimplemented!() }
}

// ------------------------------------------------------------------ characters

pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn is_alpha(c: char) -> bool { ('a' <= c <= 'z') || ('A' <= c <= 'Z') }
pub open spec fn is_alnum(c: char) -> bool { is_digit(c) || is_alpha(c) }
pub open spec fn is_ascii_char(c: char) -> bool { (c as u32) < 128 }

pub trait VxChar {
    spec fn vx_spec_alnum(&self) -> bool;
    /// ASSUMED: char::is_ascii_alphanumeric.
    fn vx_is_ascii_alphanumeric(&self) -> (r: bool)
        ensures r == self.vx_spec_alnum();
}
impl VxChar for char {
    open spec fn vx_spec_alnum(&self) -> bool { is_alnum(*self) }
    #[verifier::external_body]
    fn vx_is_ascii_alphanumeric(&self) -> (r: bool) { unimplemented!() }
}

/// ASSUMED: char::is_ascii.
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool)
    ensures r == is_ascii_char(*c);

/// ASSUMED: the last element of an iterator over characters.
pub assume_specification<'a> [<std::str::Chars<'a> as std::iter::Iterator>::last] (it: std::str::Chars<'a>) -> (r: std::option::Option<char>)
    ensures
        it.remaining().len() == 0 ==> r.is_none(),
        it.remaining().len() > 0 ==> r == Some(it.remaining().last());

// ------------------------------------------------------------------ strings

/// The parts of a text between the separators.
pub open spec fn split_on(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 {
        seq![Seq::<char>::empty()]
    } else {
        let r = split_on(s.drop_last(), c);
        if s.last() == c {
            r.push(Seq::<char>::empty())
        } else {
            r.update(r.len() - 1, r.last().push(s.last()))
        }
    }
}

pub trait VxPat {
    spec fn vx_pat(&self) -> Seq<char>;
}
impl VxPat for char { open spec fn vx_pat(&self) -> Seq<char> { seq![*self] } }
impl VxPat for &str { open spec fn vx_pat(&self) -> Seq<char> { self@ } }
impl VxPat for &String { open spec fn vx_pat(&self) -> Seq<char> { self@ } }

pub open spec fn has_suffix(s: Seq<char>, p: Seq<char>) -> bool {
    p.len() <= s.len() && s.skip(s.len() - p.len()) == p
}
pub open spec fn has_prefix(s: Seq<char>, p: Seq<char>) -> bool {
    p.len() <= s.len() && s.take(p.len() as int) == p
}
pub open spec fn has_sub(s: Seq<char>, p: Seq<char>) -> bool {
    exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) == p
}

pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }

/// ASSUMED: the searching and splitting functions of str.
pub trait VxStr {
    spec fn vx_v(&self) -> Seq<char>;
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == has_suffix(self.vx_v(), p.vx_pat());
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == has_prefix(self.vx_v(), p.vx_pat());
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == has_sub(self.vx_v(), p.vx_pat());
    fn vx_split(&self, c: char) -> (r: std::vec::IntoIter<&str>)
        ensures views(r.remaining()) == split_on(self.vx_v(), c), r.obeys_prophetic_iter_laws(), r.decrease() is Some;
    fn vx_rsplit(&self, c: char) -> (r: std::vec::IntoIter<&str>)
        ensures views(r.remaining()) == split_on(self.vx_v(), c).reverse(), r.obeys_prophetic_iter_laws(), r.decrease() is Some;
    fn vx_split_once(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures
            r is None ==> !self.vx_v().contains(c),
            r is Some ==> !(r->0).0@.contains(c) && self.vx_v() == (r->0).0@.push(c) + (r->0).1@;
}
impl VxStr for str {
    open spec fn vx_v(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split(&self, c: char) -> (r: std::vec::IntoIter<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_rsplit(&self, c: char) -> (r: std::vec::IntoIter<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split_once(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() }
}

/// ASSUMED: texts are their characters.
pub axiom fn axiom_str_ext(a: &str, b: &str)
    requires a@ == b@,
    ensures a == b;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);

/// ASSUMED: core::str::from_utf8 accepts exactly the UTF-8 texts.
pub assume_specification<'a> [core::str::from_utf8] (b: &'a [u8]) -> (r: Result<&'a str, core::str::Utf8Error>)
    ensures
        r.is_ok() == valid_utf8(b@),
        r.is_ok() ==> r.unwrap()@ == decode_utf8(b@) && r.unwrap().spec_bytes() == b@;

pub assume_specification [std::string::String::len] (s: &std::string::String) -> (r: usize)
    ensures r == encode_utf8(s@).len();

/// ASSUMED: comparing a String with a &str compares their texts.
pub assume_specification<'a> [<std::string::String as PartialEq<&str>>::eq] (a: &std::string::String, b: &&str) -> (r: bool)
    ensures r == (a@ == b@);

/// ASSUMED: a prefix of a text which ends at the boundary of a character.
#[verifier::external_body]
pub fn vx_prefix(s: &str, n: usize) -> (r: &str)
    requires exists|k: int| 0 <= k <= s@.len() && n == encode_utf8(#[trigger] s@.take(k)).len(),
    ensures encode_utf8(r@).len() == n, exists|k: int| 0 <= k <= s@.len() && r@ == #[trigger] s@.take(k),
        forall|k: int| 0 <= k <= s@.len() && n == encode_utf8(#[trigger] s@.take(k)).len() ==> r@ == s@.take(k),
{ &s[..n] }

/// The text of formatted strings is left unspecified.
#[verifier::external_body]
pub fn vx_format() -> (r: String) { unimplemented!() }

/// The characters of ASCII bytes.
pub open spec fn chars_of(b: Seq<u8>) -> Seq<char> { b.map_values(|x: u8| x as char) }
pub open spec fn bytes_of(s: Seq<char>) -> Seq<u8> { s.map_values(|c: char| c as u8) }

// ------------------------------------------------------------------ texts of files

/// ASSUMED: char::is_whitespace, the White_Space property of Unicode.
pub open spec fn is_ws(c: char) -> bool {
    let n = c as u32;
    (9 <= n <= 13) || n == 0x20 || n == 0x85 || n == 0xa0 || n == 0x1680 || (0x2000 <= n <= 0x200a) || n == 0x2028 || n == 0x2029
        || n == 0x202f || n == 0x205f || n == 0x3000
}
pub trait VxWs {
    spec fn vx_spec_ws(&self) -> bool;
    fn vx_is_whitespace(&self) -> (r: bool)
        ensures r == self.vx_spec_ws();
}
impl VxWs for char {
    open spec fn vx_spec_ws(&self) -> bool { is_ws(*self) }
    #[verifier::external_body]
    fn vx_is_whitespace(&self) -> (r: bool) { unimplemented!() }
}

pub open spec fn trim_start(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && is_ws(s[0]) { trim_start(s.drop_first()) } else { s }
}
pub open spec fn trim_end(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && is_ws(s.last()) { trim_end(s.drop_last()) } else { s }
}
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s)) }

pub proof fn lemma_trim_end(s: Seq<char>)
    ensures trim_end(s).len() <= s.len(),
    decreases s.len()
{
    if s.len() > 0 && is_ws(s.last()) { lemma_trim_end(s.drop_last()); }
}
pub proof fn lemma_trim_start(s: Seq<char>)
    ensures trim_start(s).len() <= s.len(),
    decreases s.len()
{
    if s.len() > 0 && is_ws(s[0]) { lemma_trim_start(s.drop_first()); }
}
pub proof fn lemma_trimmed(s: Seq<char>)
    ensures trimmed(s).len() <= s.len(),
{
    lemma_trim_start(s);
    lemma_trim_end(trim_start(s));
}

pub open spec fn all_digits(s: Seq<char>) -> bool {
    s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i])
}
pub open spec fn decimal(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { decimal(s.drop_last()) * 10 + (s.last() as u32 - '0' as u32) as nat }
}
/// The numbers read by u32::from_str: digits, possibly after a plus sign.
pub open spec fn parse_u32(s: Seq<char>) -> Option<u32> {
    let d = if s.len() > 0 && s[0] == '+' { s.drop_first() } else { s };
    if all_digits(d) && decimal(d) <= u32::MAX { Some(decimal(d) as u32) } else { None }
}
pub struct VxParseErr;
pub trait VxFromStr: Sized {
    spec fn vx_from(s: Seq<char>) -> Option<Self>;
}
impl VxFromStr for u32 {
    open spec fn vx_from(s: Seq<char>) -> Option<u32> { parse_u32(s) }
}

/// ASSUMED: str::trim and str::parse.
pub trait VxText {
    spec fn vx_t(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str)
        ensures r@ == trimmed(self.vx_t());
    fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, VxParseErr>)
        ensures match T::vx_from(self.vx_t()) { None => r.is_err(), Some(n) => r == Ok::<T, VxParseErr>(n) };
}
impl VxText for str {
    open spec fn vx_t(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, VxParseErr>) { unimplemented!() }
}

pub assume_specification [<std::string::String as std::convert::From<char>>::from] (c: char) -> (r: std::string::String)
    ensures r@ == seq![c];

pub assume_specification [<std::string::String as std::convert::AsRef<str>>::as_ref] (s: &std::string::String) -> (r: &str)
    ensures r@ == s@, forall|t: &str| #[trigger] t@ == s@ ==> t == r;
pub assume_specification [std::string::String::with_capacity] (n: usize) -> (r: std::string::String)
    ensures r@ == Seq::<char>::empty();

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(B)]
pub struct ExLines<B>(std::io::Lines<B>);

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ExBufReader<R: ?Sized>(std::io::BufReader<R>);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFile(std::fs::File);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

// ------------------------------------------------------------------ time, locks, hash maps changed in place

/// Stands for std::time: instants are nanoseconds on the monotonic clock, durations do not overflow.
pub mod vxtime {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct Instant(std::time::Instant);
    impl Copy for Instant {}
    impl Clone for Instant {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self) ensures r == *self { *self }
    }
    /// The clock showed this instant while the program ran.
    pub uninterp spec fn clock(t: Instant) -> bool;
    impl Instant {
        pub uninterp spec fn view(&self) -> int;
        #[verifier::external_body]
        pub fn now() -> (r: Instant) ensures clock(r) { Instant(std::time::Instant::now()) }
    }
    #[derive(Debug, Clone, Copy)]
    pub struct Duration { pub secs: u64, pub nanos: u32 }
    impl Duration {
        pub open spec fn view(&self) -> int { self.secs * 1_000_000_000 + self.nanos }
        /// ASSUMED: Duration::new with less than 10^9 nanoseconds.
        pub fn new(secs: u64, nanos: u32) -> (r: Duration)
            requires nanos < 1_000_000_000,
            ensures r.secs == secs, r.nanos == nanos,
        { Duration { secs, nanos } }
        pub fn from_secs(secs: u64) -> (r: Duration)
            ensures r.secs == secs, r.nanos == 0,
        { Duration { secs, nanos: 0 } }
        pub fn as_secs(&self) -> (r: u64) ensures r == self.secs { self.secs }
    }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Duration {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
    }
    impl PartialEq for Duration {
        #[verifier::external_body]
        fn eq(&self, o: &Self) -> bool { self.secs == o.secs && self.nanos == o.nanos }
    }
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(super::vx_rank_cmp(self@, o@)) }
    }
    impl PartialOrd for Duration {
        #[verifier::external_body]
        fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { unimplemented!() }
    }
    impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
        open spec fn obeys_add_spec() -> bool { false }
        open spec fn add_req(self, o: Duration) -> bool { true }
        open spec fn add_spec(self, o: Duration) -> Instant { self }
    }
    impl core::ops::Add<Duration> for Instant {
        type Output = Instant;
        /// ASSUMED: no overflow of the clock (times to live are below 2^32 seconds).
        #[verifier::external_body]
        fn add(self, o: Duration) -> (r: Instant)
            ensures r@ == self@ + o@,
        { Instant(self.0 + std::time::Duration::new(o.secs, o.nanos)) }
    }
    impl vstd::std_specs::ops::SubSpecImpl<Instant> for Instant {
        open spec fn obeys_sub_spec() -> bool { false }
        open spec fn sub_req(self, o: Instant) -> bool { true }
        open spec fn sub_spec(self, o: Instant) -> Duration { Duration { secs: 0, nanos: 0 } }
    }
    impl core::ops::Sub<Instant> for Instant {
        type Output = Duration;
        /// ASSUMED: the difference of two instants, zero if it would be negative.
        #[verifier::external_body]
        fn sub(self, o: Instant) -> (r: Duration)
            ensures r.nanos < 1_000_000_000, r@ == if self@ >= o@ { self@ - o@ } else { 0 },
        { unimplemented!() }
    }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Instant {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
    }
    impl PartialEq for Instant {
        #[verifier::external_body]
        fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
    }
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for Instant {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> {
            if self@ < o@ { Some(core::cmp::Ordering::Less) } else if self@ > o@ { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) }
        }
    }
    impl PartialOrd for Instant {
        #[verifier::external_body]
        fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { self.0.partial_cmp(&o.0) }
    }
}

pub open spec fn vx_rank_cmp(a: int, b: int) -> core::cmp::Ordering {
    if a < b { core::cmp::Ordering::Less } else if a > b { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal }
}
/// ASSUMED: sorting with a comparison of ranks permutes the elements and puts the ranks in order.
#[verifier::external_body]
pub fn vx_sort_by<T, F: Fn(&T, &T) -> core::cmp::Ordering>(v: &mut Vec<T>, f: F, Ghost(rank): Ghost<spec_fn(T) -> int>)
    requires
        forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> f.requires((& #[trigger] old(v)@[i], & #[trigger] old(v)@[j])),
        forall|a: &T, b: &T, o: core::cmp::Ordering| #[trigger] f.ensures((a, b), o) ==> o == vx_rank_cmp(rank(*a), rank(*b)),
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> rank(#[trigger] final(v)@[i]) <= rank(#[trigger] final(v)@[j]),
{ v.sort_by(f) }

/// ASSUMED: any number may come.
#[verifier::external_body]
pub fn vx_random_u16() -> u16 { unimplemented!() }

// ------------------------------------------------------------------ client sockets

pub mod vxnet {
    use vstd::prelude::*;
    /// Stands for std::net::IpAddr made from the four bytes of an address.
    #[derive(Debug, Clone, Copy)]
    pub struct IpAddr { pub bytes: [u8; 4] }
    impl vstd::std_specs::convert::FromSpecImpl<[u8; 4]> for IpAddr {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: [u8; 4]) -> Self { IpAddr { bytes: v } }
    }
    impl From<[u8; 4]> for IpAddr {
        fn from(v: [u8; 4]) -> (r: IpAddr) { IpAddr { bytes: v } }
    }
    /// Stands for std::net::UdpSocket.
    #[verifier::external_body]
    pub struct UdpSocket(std::net::UdpSocket);
    /// A datagram was sent to an address and a port.
    pub uninterp spec fn asked(to: IpAddr, port: u16, b: Seq<u8>) -> bool;
    /// A datagram was received from an address and a port.
    pub uninterp spec fn told(from: IpAddr, port: u16, b: Seq<u8>) -> bool;
    impl UdpSocket {
        /// The address and the port the socket is connected to.
        pub uninterp spec fn peer(&self) -> Option<(IpAddr, u16)>;
        #[verifier::external_body]
        pub fn bind(a: &str) -> (r: std::io::Result<UdpSocket>)
            ensures r.is_ok() ==> r->Ok_0.peer() is None,
        { unimplemented!() }
        /// ASSUMED: std refuses only zero durations.
        #[verifier::external_body]
        pub fn set_write_timeout(&mut self, t: Option<super::vxtime::Duration>) -> (r: std::io::Result<()>)
            ensures final(self).peer() == old(self).peer(), final(self).rd() == old(self).rd(), r.is_ok() ==> final(self).wr() == t,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn set_read_timeout(&mut self, t: Option<super::vxtime::Duration>) -> (r: std::io::Result<()>)
            ensures final(self).peer() == old(self).peer(), final(self).wr() == old(self).wr(), r.is_ok() ==> final(self).rd() == t,
        { unimplemented!() }
        /// The timeouts which were set.
        pub uninterp spec fn rd(&self) -> Option<super::vxtime::Duration>;
        pub uninterp spec fn wr(&self) -> Option<super::vxtime::Duration>;
        #[verifier::external_body]
        pub fn connect(&mut self, a: (IpAddr, u16)) -> (r: std::io::Result<()>)
            ensures final(self).rd() == old(self).rd(), final(self).wr() == old(self).wr(), r.is_ok() ==> final(self).peer() == Some(a),
        { unimplemented!() }
        /// Sends within the time the query allows.
        #[verifier::external_body]
        pub fn send(&self, b: &[u8], Ghost(t): Ghost<super::vxtime::Duration>) -> (r: std::io::Result<usize>)
            requires self.peer() is Some, self.wr() == Some(t),
            ensures r.is_ok() ==> asked((self.peer()->0).0, (self.peer()->0).1, b@),
        { unimplemented!() }
        /// ASSUMED: a connected socket receives datagrams of its peer only, a longer datagram is cut. Waits no longer than the query allows.
        #[verifier::external_body]
        pub fn recv<const N: usize>(&self, b: &mut [u8; N], Ghost(t): Ghost<super::vxtime::Duration>) -> (r: std::io::Result<usize>)
            requires self.peer() is Some, self.rd() == Some(t),
            ensures r.is_ok() ==> r->Ok_0 <= N && told((self.peer()->0).0, (self.peer()->0).1, final(b)@.take(r->Ok_0 as int)),
        { unimplemented!() }
    }
}

/// ASSUMED: HashMap::retain keeps exactly the entries for which the function returns true.
pub assume_specification<K, V, S, A: std::alloc::Allocator, F: FnMut(&K, &mut V) -> bool> [std::collections::HashMap::<K, V, S, A>::retain] (m: &mut std::collections::HashMap<K, V, S, A>, f: F)
    requires forall|k: &K, v: &mut V| f.requires((k, v)),
    ensures
        final(m)@.dom().subset_of(old(m)@.dom()),
        forall|k: K| #[trigger] old(m)@.contains_key(k) ==> exists|v: &mut V| #[trigger] f.ensures((&k, v), final(m)@.contains_key(k)) && *v == old(m)@[k]
            && (final(m)@.contains_key(k) ==> final(m)@[k] == *final(v));

/// ASSUMED: HashMap::get_mut gives the value under the key, and writing through it changes that value only.
pub assume_specification<'a, K: Eq + std::hash::Hash + std::borrow::Borrow<Q>, V, S: std::hash::BuildHasher, A: std::alloc::Allocator, Q: std::hash::Hash + Eq + ?Sized> [std::collections::HashMap::<K, V, S, A>::get_mut] (m: &'a mut std::collections::HashMap<K, V, S, A>, k: &Q) -> (r: Option<&'a mut V>)
    ensures
        obeys_key_model::<K>() && builds_valid_hashers::<S>() ==> match r {
            None => !contains_borrowed_key(old(m)@, k) && final(m)@ == old(m)@,
            Some(v) => maps_borrowed_key_to_value(old(m)@, k, *v) && exists|key: K| old(m)@.contains_key(key) && old(m)@[key] == *v
                && final(m)@ == #[trigger] old(m)@.insert(key, *final(v)) && borrowed_key_removed(old(m)@, old(m)@.remove(key), k)
                && (*final(v) == *v ==> final(m)@ == old(m)@),
        };

pub assume_specification<T> [core::mem::drop] (x: T);
/// Stands for Option::get_or_insert when the result is not used.
pub fn vx_keep<T>(o: &mut Option<T>, x: T)
    ensures *final(o) == if old(o).is_some() { *old(o) } else { Some(x) },
{
    if o.is_none() { *o = Some(x); }
}

/// Stands for std::cmp::min on numbers.
pub fn vx_min(a: u64, b: u64) -> (r: u64)
    ensures r == if a <= b { a } else { b },
{
    if a <= b { a } else { b }
}

pub assume_specification<T: core::default::Default> [core::mem::take] (x: &mut T) -> (r: T)
    ensures r == *old(x), *final(x) == dflt::<T>();

#[derive(Debug)]
pub struct VxPoison;

/// Stands for std::sync::Mutex seen by the thread which holds the lock. ASSUMED: no thread panics while it holds it.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxMutex<T>(std::sync::Mutex<T>);
impl<T> VxMutex<T> {
    pub uninterp spec fn view(&self) -> T;
    /// The lock was not taken yet by the operation at hand. What an operation does under one lock is seen at once by the
    /// other threads, so its contract may speak of the state before and after it; a second lock would need another contract.
    pub uninterp spec fn fresh(&self) -> bool;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) ensures r@ == t, r.fresh() { VxMutex(std::sync::Mutex::new(t)) }
    #[verifier::external_body]
    pub fn lock(&mut self) -> (r: Result<&mut T, VxPoison>)
        requires old(self).fresh(),
        ensures r is Ok, *(r->Ok_0) == old(self)@, final(self)@ == *final(r->Ok_0),
    { unimplemented!() }
}
pub trait VxDerefMut: Sized {
    fn vx_deref_mut(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r);
}
impl<T> VxDerefMut for T {
    fn vx_deref_mut(&mut self) -> (r: &mut Self) { self }
}

// ------------------------------------------------------------------ threads of a pool

pub mod vxpool {
    use vstd::prelude::*;
    use std::sync::Arc;

    /// Stands for Box<dyn FnOnce() + Send>.
    #[verifier::external_body]
    pub struct Job(std::boxed::Box<u8>);
    /// The job is the call of a function.
    pub uninterp spec fn job_of<F>(j: Job, f: F) -> bool;
    impl Job {
        /// Stands for Box::new on a function.
        #[verifier::external_body]
        pub fn new<F: FnOnce() + Send + 'static>(f: F) -> (r: Job)
            requires f.requires(()),
            ensures job_of(r, f),
        { unimplemented!() }
    }

    pub trait Message: Sized {
        spec fn job(&self) -> Option<Job>;
    }

    /// What a worker is doing. Changed only by the functions below.
    pub tracked struct Worker { pub ghost channel: int, pub ghost locked: bool, pub ghost job: Option<Job>, pub ghost stopped: bool }
    impl Worker {
        pub open spec fn idle(&self, ch: int) -> bool { self.channel == ch && !self.locked && self.job is None && !self.stopped }
    }
    /// The owner of the sending end: how many stops it sent, and to how many workers.
    pub tracked struct Owner { pub ghost channel: int, pub ghost stops: nat, pub ghost workers: nat }

    /// A worker took a stop message from the channel.
    pub uninterp spec fn stopped(ch: int) -> bool;
    /// A message was sent on the channel.
    pub uninterp spec fn sent<T>(ch: int, m: T) -> bool;

    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T>(std::sync::mpsc::Sender<T>);
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T>(std::sync::mpsc::Receiver<T>);
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct ChannelErr;
    impl<T> Receiver<T> { pub uninterp spec fn ch(&self) -> int; }
    impl<T> Sender<T> { pub uninterp spec fn ch(&self) -> int; }

    /// ASSUMED: a channel gives each message sent to one receive, in the order in which they were sent.
    #[verifier::external_body]
    pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>))
        ensures r.0.ch() == r.1.ch(),
    { unimplemented!() }

    impl<T: Message> Sender<T> {
        /// ASSUMED: sending fails only if no receiver is left: a worker keeps one until it takes a stop.
        #[verifier::external_body]
        pub fn vx_send(&self, m: T, Tracked(o): Tracked<&mut Owner>) -> (r: Result<(), ChannelErr>)
            requires
                old(o).channel == self.ch(), old(o).stops < old(o).workers,
                m.job() is Some ==> old(o).stops == 0,
            ensures
                r is Ok, sent(self.ch(), m),
                *final(o) == (Owner { stops: if m.job() is None { old(o).stops + 1 } else { old(o).stops }, ..*old(o) }),
        { unimplemented!() }
    }

    /// Stands for std::sync::Mutex<Receiver>.
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Mutex<T>(std::sync::Mutex<T>);
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Guard<T>(T);
    impl<T> Mutex<T> {
        pub uninterp spec fn view(&self) -> T;
        #[verifier::external_body]
        pub fn new(t: T) -> (r: Self) ensures r@ == t { unimplemented!() }
        /// ASSUMED: no worker panics while it holds the lock.
        #[verifier::external_body]
        pub fn vx_lock(&self, Tracked(w): Tracked<&mut Worker>) -> (r: Result<Guard<T>, ChannelErr>)
            requires !old(w).locked,
            ensures r is Ok, (r->Ok_0)@ == self@, *final(w) == (Worker { locked: true, ..*old(w) }),
        { unimplemented!() }
    }
    impl<T> Guard<T> { pub uninterp spec fn view(&self) -> T; }
    impl<T: Message> Guard<Receiver<T>> {
        /// Takes the next message. A worker which did not run its job, or took a stop, takes no other.
        #[verifier::external_body]
        pub fn vx_recv(&self, Tracked(w): Tracked<&mut Worker>) -> (r: Result<T, ChannelErr>)
            requires old(w).channel == self@.ch(), old(w).locked, old(w).job is None, !old(w).stopped,
            ensures
                r is Ok,
                *final(w) == (Worker { job: (r->Ok_0).job(), stopped: (r->Ok_0).job() is None, ..*old(w) }),
                final(w).stopped ==> stopped(self@.ch()),
        { unimplemented!() }
    }
    /// Stands for dropping the guard.
    #[verifier::external_body]
    pub fn vx_unlock<T>(g: Guard<T>, Tracked(w): Tracked<&mut Worker>)
        requires old(w).locked,
        ensures *final(w) == (Worker { locked: false, ..*old(w) }),
    { unimplemented!() }
    impl Job {
        /// Stands for the call of the function. The other workers can take messages meanwhile. ASSUMED: the function returns.
        #[verifier::external_body]
        pub fn vx_run(self, Tracked(w): Tracked<&mut Worker>)
            requires old(w).job == Some(self), !old(w).locked,
            ensures *final(w) == (Worker { job: None, ..*old(w) }),
        { unimplemented!() }
    }

    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct JoinHandle<T>(std::thread::JoinHandle<T>);
    /// The thread serves a channel until it takes a stop from it.
    pub uninterp spec fn serves<T>(h: JoinHandle<T>, ch: int) -> bool;
    /// The thread ended.
    pub uninterp spec fn joined<T>(h: JoinHandle<T>) -> bool;

    #[verifier::external_body]
    pub proof fn vx_worker(ch: int) -> (tracked r: Worker)
        ensures r.idle(ch),
    { unimplemented!() }
    /// The sending end is used by its owner only, and stops are sent by its last user.
    #[verifier::external_body]
    pub proof fn vx_owner(ch: int, n: nat) -> (tracked r: Owner)
        ensures r == (Owner { channel: ch, stops: 0, workers: n }),
    { unimplemented!() }

    /// ASSUMED: the thread runs the function, once.
    #[verifier::external_body]
    pub fn vx_spawn<F: FnOnce() + Send + 'static>(ch: Ghost<int>, f: F) -> (r: JoinHandle<()>)
        requires f.requires(()), f.ensures((), ()) ==> stopped(ch@),
        ensures serves(r, ch@),
    { unimplemented!() }
    impl<T> JoinHandle<T> {
        /// Waits for the thread, which ends when there is a stop for each worker of its channel.
        #[verifier::external_body]
        pub fn vx_join(self, Tracked(o): Tracked<&Owner>) -> (r: Result<T, ChannelErr>)
            requires serves(self, o.channel), o.stops == o.workers,
            ensures r is Ok, joined(self),
        { unimplemented!() }
    }
}

// ------------------------------------------------------------------ network

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTcpStream(std::net::TcpStream);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUdpSocket(std::net::UdpSocket);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExSocketAddr(std::net::SocketAddr);

/// The bytes which are still to come on a TCP stream, and those which were written to it.
pub uninterp spec fn tcp_incoming(s: std::net::TcpStream) -> Seq<u8>;
pub uninterp spec fn tcp_written(s: std::net::TcpStream) -> Seq<u8>;
/// The connection of the stream (the same for all its states).
pub uninterp spec fn tcp_conn(s: std::net::TcpStream) -> int;
/// The bytes may be what was written to the connection.
pub uninterp spec fn tcp_may(conn: int, b: Seq<u8>) -> bool;
/// The bytes were written to the connection.
pub uninterp spec fn tcp_wrote(conn: int, b: Seq<u8>) -> bool;
/// The connection failed or ended.
pub uninterp spec fn tcp_broken(conn: int) -> bool;

pub trait VxBuf { spec fn vx_now(&self) -> Seq<u8>; }
impl<const N: usize> VxBuf for [u8; N] { open spec fn vx_now(&self) -> Seq<u8> { self@ } }
impl VxBuf for Vec<u8> { open spec fn vx_now(&self) -> Seq<u8> { self@ } }

pub trait VxTcp {
    /// ASSUMED: read_exact reads the next bytes of the stream, however they arrive, or fails.
    fn vx_read_exact<B: VxBuf>(&mut self, b: &mut B) -> std::io::Result<()>
        requires old(self).vx_ends();
    spec fn vx_ends(&self) -> bool;
    spec fn vx_may(&self, b: Seq<u8>) -> bool;
    /// ASSUMED: write_all appends the bytes to what was written to the stream, or fails.
    fn vx_write_all<B: VxBuf>(&mut self, b: &B) -> std::io::Result<()>
        requires old(self).vx_may(b.vx_now());
}
/// The timeouts of a stream; a timeout was set on a connection.
pub uninterp spec fn tcp_rd(s: std::net::TcpStream) -> Option<crate::vx::vxtime::Duration>;
pub uninterp spec fn tcp_wr(s: std::net::TcpStream) -> Option<crate::vx::vxtime::Duration>;
pub uninterp spec fn tcp_rd_set(conn: int, t: Option<crate::vx::vxtime::Duration>) -> bool;
pub uninterp spec fn tcp_wr_set(conn: int, t: Option<crate::vx::vxtime::Duration>) -> bool;
#[verifier::external_body]
pub fn vx_io_error() -> std::io::Error { unimplemented!() }
impl VxTcp for std::net::TcpStream {
    open spec fn vx_may(&self, b: Seq<u8>) -> bool { tcp_wr(*self) is Some && tcp_may(tcp_conn(*self), tcp_written(*self) + b) }
    open spec fn vx_ends(&self) -> bool { tcp_rd(*self) is Some }
    #[verifier::external_body]
    fn vx_read_exact<B: VxBuf>(&mut self, b: &mut B) -> (r: std::io::Result<()>)
        ensures
            tcp_conn(*final(self)) == tcp_conn(*old(self)), tcp_rd(*final(self)) == tcp_rd(*old(self)), tcp_wr(*final(self)) == tcp_wr(*old(self)),
            final(b).vx_now().len() == old(b).vx_now().len(),
            r.is_ok() ==> tcp_incoming(*old(self)).len() >= final(b).vx_now().len()
                && final(b).vx_now() == tcp_incoming(*old(self)).take(final(b).vx_now().len() as int)
                && tcp_incoming(*final(self)) == tcp_incoming(*old(self)).skip(final(b).vx_now().len() as int),
            r.is_err() ==> tcp_broken(tcp_conn(*old(self))),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_write_all<B: VxBuf>(&mut self, b: &B) -> (r: std::io::Result<()>)
        ensures
            tcp_conn(*final(self)) == tcp_conn(*old(self)), tcp_rd(*final(self)) == tcp_rd(*old(self)), tcp_wr(*final(self)) == tcp_wr(*old(self)),
            r.is_ok() ==> tcp_written(*final(self)) == tcp_written(*old(self)) + b.vx_now()
                && tcp_wrote(tcp_conn(*old(self)), tcp_written(*final(self))),
            r.is_err() ==> tcp_broken(tcp_conn(*old(self))),
    { unimplemented!() }
}

/// The bytes may be sent to the address; something was sent to the address.
pub uninterp spec fn udp_may(s: std::net::UdpSocket, b: Seq<u8>, to: std::net::SocketAddr) -> bool;
pub uninterp spec fn udp_sent(s: std::net::UdpSocket, b: Seq<u8>, to: std::net::SocketAddr) -> bool;
pub uninterp spec fn udp_broken(s: std::net::UdpSocket) -> bool;

/// ASSUMED: send_to sends the bytes as one datagram to the address, or fails. `left` counts the datagrams which may still be sent.
#[verifier::external_body]
pub fn vx_send_to(s: &std::net::UdpSocket, b: &[u8], to: std::net::SocketAddr, Ghost(left): Ghost<int>) -> (r: std::io::Result<usize>)
    requires left > 0, udp_may(*s, b@, to),
    ensures
        r.is_ok() ==> r->Ok_0 == b@.len() && udp_sent(*s, b@, to),
        r.is_err() ==> udp_broken(*s),
{ unimplemented!() }

/// The socket of a handle (the same for its clones).
pub uninterp spec fn udp_id(s: std::net::UdpSocket) -> int;
/// A datagram was received from an address.
pub uninterp spec fn udp_got(id: int, b: Seq<u8>, from: std::net::SocketAddr) -> bool;

/// The datagram which a server received and did not deal with yet.
/// It must look whether it was told to stop before it waits for the next one.
pub tracked struct UdpServer { pub ghost due: Option<(Seq<u8>, std::net::SocketAddr)>, pub ghost look: bool }
/// The connection which a server accepted and did not deal with yet.
pub tracked struct TcpServer { pub ghost due: Option<int>, pub ghost look: bool }
pub trait VxServer {
    spec fn looks(&self) -> bool;
    spec fn same(&self, o: &Self) -> bool;
}
impl VxServer for UdpServer {
    open spec fn looks(&self) -> bool { self.look }
    open spec fn same(&self, o: &Self) -> bool { self.due == o.due }
}
impl VxServer for TcpServer {
    open spec fn looks(&self) -> bool { self.look }
    open spec fn same(&self, o: &Self) -> bool { self.due == o.due }
}
#[verifier::external_body]
pub proof fn vx_udp_server() -> (tracked r: UdpServer)
    ensures r.due is None, !r.look,
{ unimplemented!() }
#[verifier::external_body]
pub proof fn vx_tcp_server() -> (tracked r: TcpServer)
    ensures r.due is None, !r.look,
{ unimplemented!() }

/// ASSUMED: recv_from receives one datagram, cut to the length of the buffer.
#[verifier::external_body]
pub fn vx_recv_from<const N: usize>(s: &std::net::UdpSocket, b: &mut [u8; N], Tracked(t): Tracked<&mut UdpServer>) -> (r: std::io::Result<(usize, std::net::SocketAddr)>)
    requires old(t).due is None, !old(t).look,
    ensures
        final(t).look == r.is_ok(),
        r.is_err() ==> final(t).due is None,
        r.is_ok() ==> (r->Ok_0).0 <= N && udp_got(udp_id(*s), final(b)@.take((r->Ok_0).0 as int), (r->Ok_0).1)
            && final(t).due == Some((final(b)@.take((r->Ok_0).0 as int), (r->Ok_0).1)),
{ unimplemented!() }
/// A datagram which comes while the system cannot duplicate the socket is lost.
#[verifier::external_body]
pub fn vx_udp_clone(s: &std::net::UdpSocket, Tracked(t): Tracked<&mut UdpServer>) -> (r: std::io::Result<std::net::UdpSocket>)
    ensures
        r.is_err() ==> final(t).due is None && final(t).look == old(t).look,
        r.is_ok() ==> udp_id(r->Ok_0) == udp_id(*s) && *final(t) == *old(t),
{ unimplemented!() }

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTcpListener(std::net::TcpListener);
#[verifier::external_body]
pub fn vx_tcp_bind(a: (&str, u16)) -> (r: std::io::Result<std::net::TcpListener>)
    ensures r.is_ok() ==> tcp_at(r->Ok_0, a.0@, a.1), r.is_err() ==> unbound(a.0@, a.1),
{ unimplemented!() }
/// No socket could be bound to the address; setting a timeout failed; the server was asked to stop.
pub uninterp spec fn unbound(address: Seq<char>, port: u16) -> bool;
pub uninterp spec fn udp_failed(id: int) -> bool;
pub uninterp spec fn stop_asked(s: &std::sync::atomic::AtomicBool) -> bool;
#[verifier::external_body]
pub fn vx_stop<T: VxServer>(s: &std::sync::atomic::AtomicBool, Tracked(t): Tracked<&mut T>) -> (r: bool)
    ensures r ==> stop_asked(s), final(t).same(old(t)), r || !final(t).looks(),
{ unimplemented!() }
/// A socket is bound to an address and a port; the timeout of a socket was set.
pub uninterp spec fn tcp_at(l: std::net::TcpListener, address: Seq<char>, port: u16) -> bool;
pub uninterp spec fn udp_at(id: int, address: Seq<char>, port: u16) -> bool;
pub uninterp spec fn udp_limit(id: int, t: Option<crate::vx::vxtime::Duration>) -> bool;
#[verifier::external_body]
pub fn vx_udp_bind(a: (&str, u16)) -> (r: std::io::Result<std::net::UdpSocket>)
    ensures r.is_ok() ==> udp_at(udp_id(r->Ok_0), a.0@, a.1), r.is_err() ==> unbound(a.0@, a.1),
{ unimplemented!() }
/// ASSUMED: setting a timeout other than zero changes nothing else.
#[verifier::external_body]
pub fn vx_udp_timeout(s: &std::net::UdpSocket, t: Option<crate::vx::vxtime::Duration>) -> (r: std::io::Result<()>)
    ensures r.is_ok() ==> udp_limit(udp_id(*s), t), r.is_err() ==> udp_failed(udp_id(*s)),
{ unimplemented!() }
/// A connection was accepted, and these are the bytes which come.
pub uninterp spec fn tcp_accepted(conn: int, b: Seq<u8>) -> bool;
/// ASSUMED: accept gives the stream of a new connection.
#[verifier::external_body]
pub fn vx_accept(l: &std::net::TcpListener, Tracked(t): Tracked<&mut TcpServer>) -> (r: std::io::Result<(std::net::TcpStream, std::net::SocketAddr)>)
    requires old(t).due is None, !old(t).look,
    ensures
        final(t).look == r.is_ok(),
        r.is_err() ==> final(t).due is None,
        r.is_ok() ==> tcp_written((r->Ok_0).0) == Seq::<u8>::empty() && tcp_accepted(tcp_conn((r->Ok_0).0), tcp_incoming((r->Ok_0).0))
            && final(t).due == Some(tcp_conn((r->Ok_0).0)),
{ unimplemented!() }
pub trait VxTryClone: Sized {
    fn vx_try_clone(&self) -> std::io::Result<Self>;
}
impl VxTryClone for std::net::TcpStream {
    /// ASSUMED: a clone of a stream which was not used reads and writes the same connection.
    #[verifier::external_body]
    fn vx_try_clone(&self) -> (r: std::io::Result<std::net::TcpStream>)
        ensures
            r.is_err() ==> tcp_broken(tcp_conn(*self)),
            r.is_ok() ==> tcp_conn(r->Ok_0) == tcp_conn(*self) && tcp_incoming(r->Ok_0) == tcp_incoming(*self) && tcp_written(r->Ok_0) == tcp_written(*self)
                && tcp_rd(r->Ok_0) == tcp_rd(*self) && tcp_wr(r->Ok_0) == tcp_wr(*self),
    { unimplemented!() }
}
/// ASSUMED: setting a timeout other than zero changes nothing else.
#[verifier::external_body]
pub fn vx_tcp_rd_timeout(s: &mut std::net::TcpStream, t: Option<crate::vx::vxtime::Duration>) -> (r: std::io::Result<()>)
    ensures
        r.is_err() ==> tcp_broken(tcp_conn(*old(s))),
        r.is_ok() ==> tcp_rd_set(tcp_conn(*old(s)), t) && tcp_rd(*final(s)) == t,
        tcp_wr(*final(s)) == tcp_wr(*old(s)),
        tcp_conn(*final(s)) == tcp_conn(*old(s)), tcp_incoming(*final(s)) == tcp_incoming(*old(s)), tcp_written(*final(s)) == tcp_written(*old(s)),
{ unimplemented!() }
/// ASSUMED: setting a timeout other than zero changes nothing else.
#[verifier::external_body]
pub fn vx_tcp_wr_timeout(s: &mut std::net::TcpStream, t: Option<crate::vx::vxtime::Duration>) -> (r: std::io::Result<()>)
    ensures
        r.is_err() ==> tcp_broken(tcp_conn(*old(s))),
        r.is_ok() ==> tcp_wr_set(tcp_conn(*old(s)), t) && tcp_wr(*final(s)) == t,
        tcp_rd(*final(s)) == tcp_rd(*old(s)),
        tcp_conn(*final(s)) == tcp_conn(*old(s)), tcp_incoming(*final(s)) == tcp_incoming(*old(s)), tcp_written(*final(s)) == tcp_written(*old(s)),
{ unimplemented!() }

// ------------------------------------------------------------------ starting and stopping the servers

/// The servers run in threads of their own, with these parameters.
pub uninterp spec fn udp_launched<H>(h: H, address: Seq<char>, port: u16, wr: crate::vx::vxtime::Duration, threads: usize) -> bool;
pub uninterp spec fn tcp_launched<H>(h: H, address: Seq<char>, port: u16, rd: crate::vx::vxtime::Duration, wr: crate::vx::vxtime::Duration, threads: usize) -> bool;
/// One of the servers has ended; a message of the channel was received.
pub uninterp spec fn over() -> bool;
pub uninterp spec fn heard(ch: int) -> bool;
/// A message was sent to the channel; the thread of the server sends one when the server ends.
pub uninterp spec fn told(ch: int) -> bool;
pub uninterp spec fn udp_tells(ch: int) -> bool;
pub uninterp spec fn tcp_tells(ch: int) -> bool;

#[verifier::external_body]
pub struct VxEnd(std::sync::mpsc::Sender<()>);
#[verifier::external_body]
pub struct VxEnds(std::sync::mpsc::Receiver<()>);
impl VxEnd { pub uninterp spec fn ch(&self) -> int; }
impl VxEnds { pub uninterp spec fn ch(&self) -> int; }
impl Clone for VxEnd {
    #[verifier::external_body]
    fn clone(&self) -> (r: VxEnd)
        ensures r.ch() == self.ch(),
    { VxEnd(self.0.clone()) }
}
#[verifier::external_body]
pub fn vx_ends() -> (r: (VxEnd, VxEnds))
    ensures r.0.ch() == r.1.ch(),
{ unimplemented!() }
impl VxEnd {
    /// ASSUMED: the receiver is alive (it lives as long as the function which starts the servers waits).
    #[verifier::external_body]
    pub fn send(&self, u: ()) -> (r: Result<(), ()>)
        requires over(),
        ensures r is Ok, told(self.ch()),
    { unimplemented!() }
}
impl VxEnds {
    /// ASSUMED: there are senders (the function which waits has one), so this waits for a message. Only for one
    /// which comes from the first of the two servers which ends.
    #[verifier::external_body]
    pub fn recv(&self) -> (r: Result<(), ()>)
        requires udp_tells(self.ch()), tcp_tells(self.ch()),
        ensures r is Ok, heard(self.ch()),
    { unimplemented!() }
    /// ASSUMED: panics if the other server does not end in time: the process ends then. Waits only for servers
    /// which were told to stop and woken up.
    #[verifier::external_body]
    pub fn vx_last(&self, t: crate::vx::vxtime::Duration, s: &std::sync::atomic::AtomicBool, Ghost(u): Ghost<(Seq<char>, u16)>, Ghost(c): Ghost<(Seq<char>, u16)>)
        requires flagged(s), woken(u, c),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_flag() -> (r: std::sync::atomic::AtomicBool)
{ unimplemented!() }
/// The servers are told to stop only after one of them has ended.
#[verifier::external_body]
pub fn vx_tell(s: &std::sync::atomic::AtomicBool, e: &VxEnds)
    requires heard(e.ch()),
    ensures flagged(s),
{ unimplemented!() }
pub uninterp spec fn flagged(s: &std::sync::atomic::AtomicBool) -> bool;
/// A datagram and a connection to the addresses of the servers, as far as sockets can be had (a failure to send or
/// to connect says that nobody is there).
pub open spec fn woken(u: (Seq<char>, u16), t: (Seq<char>, u16)) -> bool { no_socket() || poked_udp(u.0, u.1) && poked_tcp(t.0, t.1) }
pub uninterp spec fn no_socket() -> bool;
pub uninterp spec fn poked_udp(address: Seq<char>, port: u16) -> bool;
pub uninterp spec fn poked_tcp(address: Seq<char>, port: u16) -> bool;
#[verifier::external_body]
pub fn vx_any_socket(a: &str) -> (r: std::io::Result<std::net::UdpSocket>)
    ensures r.is_err() ==> no_socket(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_poke_udp(s: &std::net::UdpSocket, b: &[u8], a: (&str, u16)) -> (r: std::io::Result<usize>)
    ensures poked_udp(a.0@, a.1),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_poke_tcp(a: (&str, u16)) -> (r: std::io::Result<std::net::TcpStream>)
    ensures poked_tcp(a.0@, a.1),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_any_bytes(s: &std::net::TcpStream, b: &[u8]) -> (r: std::io::Result<()>)
{ unimplemented!() }

// ------------------------------------------------------------------ the process

/// The arguments of the process, the first is the program.
pub uninterp spec fn the_args() -> Seq<Seq<char>>;
#[verifier::external_body]
pub fn vx_args() -> (r: Vec<String>)
    ensures r@.map_values(|s: String| s@) == the_args(),
{ std::env::args().collect() }

// ------------------------------------------------------------------ text of values

/// The text a value is displayed as.
pub uninterp spec fn shown<T: ?Sized>(x: &T) -> Seq<char>;

/// ASSUMED: texts and names are displayed as they are, numbers in decimal without leading zeros.
pub broadcast axiom fn axiom_shown_string(x: &String)
    ensures #[trigger] shown::<String>(x) == x@;
pub broadcast axiom fn axiom_shown_str(x: &str)
    ensures #[trigger] shown::<str>(x) == x@;
pub broadcast axiom fn axiom_shown_u32(x: &u32)
    ensures #[trigger] shown::<u32>(x) == digits_of(*x as nat);

pub open spec fn digits_of(n: nat) -> Seq<char>
    decreases n
{
    let d = seq![((n % 10) as u8 + '0' as u8) as char];
    if n < 10 { d } else { digits_of(n / 10) + d }
}

pub trait VxShow {
    fn vx_to_string(&self) -> (r: String)
        ensures r@ == shown::<Self>(self);
}
impl<T: ?Sized> VxShow for T {
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

// ------------------------------------------------------------------ maps

/// ASSUMED: the default values of vectors and maps are empty.
pub uninterp spec fn dflt<V>() -> V;
pub broadcast axiom fn axiom_dflt_vec<T>()
    ensures (#[trigger] dflt::<Vec<T>>())@ == Seq::<T>::empty();
pub broadcast axiom fn axiom_dflt_map<K, V>()
    ensures (#[trigger] dflt::<std::collections::HashMap<K, V>>())@ == Map::<K, V>::empty();
pub assume_specification<'a, K, V: std::default::Default> [std::collections::hash_map::Entry::<'a, K, V>::or_default] (e: std::collections::hash_map::Entry<'a, K, V>) -> (r: &'a mut V)
    ensures
        *r == (match e.value() { Some(v) => v, None => dflt::<V>() }),
        e.final_value() == Some(*final(r));

pub open spec fn vx_is_entries<K, V>(e: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> m.contains_key((#[trigger] e[i]).0) && m[e[i].0] == e[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0
}
/// ASSUMED: iterating over a map gives each of its entries once.
#[verifier::external_body]
pub fn vx_entries<K, V>(m: std::collections::HashMap<K, V>) -> (r: std::vec::IntoIter<(K, V)>)
    ensures vx_is_entries(r.remaining(), m@), r.obeys_prophetic_iter_laws(), r.decrease() is Some,
{ unimplemented!() }

/// ASSUMED: m.iter().map(f) calls f once with each of the entries of the map.
#[verifier::external_body]
pub fn vx_map_each<'a, K, V, B, F: Fn((&'a K, &'a V)) -> B>(m: &'a std::collections::HashMap<K, V>, f: F) -> (r: (Vec<B>, Ghost<Seq<(K, V)>>))
    requires forall|k: &K, v: &V| m@.contains_key(*k) && m@[*k] == *v ==> #[trigger] f.requires(((k, v),)),
    ensures
        vx_is_entries((r.1)@, m@), (r.0)@.len() == (r.1)@.len(),
        forall|i: int| 0 <= i < (r.0)@.len() ==> f.ensures(((&((r.1)@[i]).0, &((r.1)@[i]).1),), #[trigger] (r.0)@[i]),
{ unimplemented!() }
/// The j-th element of the i-th list.
pub open spec fn vx_at<R>(v: Seq<Option<&Vec<R>>>, i: int, j: int) -> bool { 0 <= i < v.len() && v[i] is Some && 0 <= j < (v[i]->0)@.len() }
pub open spec fn vx_elem<R>(v: Seq<Option<&Vec<R>>>, i: int, j: int) -> R { (v[i]->0)@[j] }
#[verifier::opaque]
pub open spec fn vx_flat_in<R>(v: Seq<Option<&Vec<R>>>, r: Seq<&R>) -> bool {
    forall|i: int, j: int| #[trigger] vx_at(v, i, j) ==> exists|k: int| 0 <= k < r.len() && *#[trigger] r[k] == vx_elem(v, i, j)
}
#[verifier::opaque]
pub open spec fn vx_flat_of<R>(v: Seq<Option<&Vec<R>>>, r: Seq<&R>) -> bool {
    forall|k: int| 0 <= k < r.len() ==> exists|i: int, j: int| #[trigger] vx_at(v, i, j) && *(#[trigger] r[k]) == vx_elem(v, i, j)
}
/// ASSUMED: .filter_map(|r| r).flatten() gives the elements of the lists there are.
#[verifier::external_body]
pub fn vx_flatten<'a, R>(v: Vec<Option<&'a Vec<R>>>) -> (r: Vec<&'a R>)
    ensures vx_flat_in(v@, r@), vx_flat_of(v@, r@),
{ unimplemented!() }

// ------------------------------------------------------------------ addresses

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExAddrParseError(std::net::AddrParseError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIpAddr(std::net::IpAddr);

/// The texts of IP addresses (std::net decides).
pub uninterp spec fn ip_text(s: Seq<char>) -> bool;

#[verifier::external_body]
pub fn vx_ip_addr(s: &str) -> (r: Result<std::net::IpAddr, std::net::AddrParseError>)
    ensures r.is_ok() == ip_text(s@),
{ std::str::FromStr::from_str(s) }

/// The IPv4 addresses written as texts (std::net decides).
pub uninterp spec fn ipv4_of(s: Seq<char>) -> Option<Seq<u8>>;
pub uninterp spec fn ipv4_bytes(a: std::net::Ipv4Addr) -> Seq<u8>;
/// ASSUMED: IPv4 addresses have four bytes.
pub axiom fn axiom_ipv4_len()
    ensures forall|s: Seq<char>| #![trigger ipv4_of(s)] ipv4_of(s) is Some ==> (ipv4_of(s)->0).len() == 4;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIpv4Addr(std::net::Ipv4Addr);

pub assume_specification [std::net::Ipv4Addr::octets] (a: &std::net::Ipv4Addr) -> (r: [u8; 4])
    ensures r@ == ipv4_bytes(*a);

#[verifier::external_body]
pub fn vx_ipv4_addr(s: &str) -> (r: Result<std::net::Ipv4Addr, std::net::AddrParseError>)
    ensures match ipv4_of(s@) { None => r.is_err(), Some(b) => r.is_ok() && ipv4_bytes(r->Ok_0) == b },
{ std::str::FromStr::from_str(s) }

/// ASSUMED: try_into from u32 to u16.
#[verifier::external_body]
pub fn vx_to_u16(n: u32) -> (r: Option<u16>)
    ensures r == (if n <= 0xffff { Some(n as u16) } else { None::<u16> }),
{ n.try_into().ok() }

/// ASSUMED: str::to_uppercase (Unicode, left unspecified).
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub trait VxUpper {
    spec fn vx_u(&self) -> Seq<char>;
    fn vx_to_uppercase(&self) -> (r: String)
        ensures r@ == upper(self.vx_u());
}
impl VxUpper for str {
    open spec fn vx_u(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
}

// ------------------------------------------------------------------ configuration files

/// ASSUMED: the text of the file at a path, None if it cannot be read.
pub uninterp spec fn file_text(path: Seq<char>) -> Option<Seq<char>>;
/// ASSUMED: what serde_json makes of a text.
pub uninterp spec fn json_value<T>(text: Seq<char>) -> Option<T>;

#[verifier::external_body]
pub struct VxJsonErr { e: u8 }

#[verifier::external_body]
pub fn vx_read_to_string(path: &str) -> (r: Result<String, std::io::Error>)
    ensures match file_text(path@) { None => r.is_err(), Some(t) => r.is_ok() && r->Ok_0@ == t },
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_from_json<T>(s: &str) -> (r: Result<T, VxJsonErr>)
    ensures match json_value::<T>(s@) { None => r.is_err(), Some(v) => r.is_ok() && r->Ok_0 == v },
{ unimplemented!() }

pub broadcast group group_vx {
    axiom_shown_string, axiom_shown_str, axiom_shown_u32,
    axiom_str_len,
}

} // verus!
}
