//! C16: descriptors select the right type, in numeric and symbolic form.
use crate::each_composite;
use crate::fields::*;
use crate::shapes::Same;
use crate::spec::{enc, ok, R};
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{Decode, InMessage, OutMessage};

/// Types the descriptor selects from.
trait Union: Decode {
    /// name and code of every member, an encoding of its content
    fn members() -> Vec<(&'static str, u64, Vec<u8>)>;
    fn member(&self) -> (&'static str, u64);
}
fn content<T: Composite>() -> Vec<u8> {
    let v = sym::plain(|| T::draw(999, Mode::Bare, Mode::Bare));
    let mut b = Vec::new();
    for i in 0..T::N {
        v.write_field(i, &mut b, false)
    }
    let mut w = Vec::new();
    list(&mut w, false, T::N, &b);
    w
}
macro_rules! union {
    ($u:ident [$($t:ident),*] $($rest:pat => $r:expr)?) => {
        impl Union for $u {
            fn members() -> Vec<(&'static str, u64, Vec<u8>)> {
                vec![$( ($t::NAME, $t::CODE, content::<$t>()) ),*]
            }
            fn member(&self) -> (&'static str, u64) {
                match self { $( $u::$t(_) => ($t::NAME, $t::CODE), )* $( $rest => $r )? }
            }
        }
    };
}
union!(Frame [Open, Begin, Attach, Flow, Transfer, Disposition, Detach, End, Close] Frame::Empty => panic!("empty frame out of a described value"));
union!(SaslFrameBody [SaslMechanisms, SaslInit, SaslChallenge, SaslResponse, SaslOutcome]);
union!(Outcome [Accepted, Rejected, Released, Modified]);
union!(DeliveryState [Received, Accepted, Rejected, Released, Modified]);

/// Sections of a message: name, code, constructor of the content (0: any).
const SECTIONS: [(&'static str, u64, u8); 9] = [
    ("amqp:header:list", 0x70, 0xc0),
    ("amqp:delivery-annotations:map", 0x71, 0xc1),
    ("amqp:message-annotations:map", 0x72, 0xc1),
    ("amqp:properties:list", 0x73, 0xc0),
    ("amqp:application-properties:map", 0x74, 0xc1),
    ("amqp:data:binary", 0x75, 0xa0),
    ("amqp:amqp-sequence:list", 0x76, 0xc0),
    ("amqp:amqp-value:*", 0x77, 0),
    ("amqp:footer:map", 0x78, 0xc1),
];
fn section_content(k: u8) -> Vec<u8> {
    match k {
        0xa0 => vec![0xa0, 1, 7],
        0xc1 => vec![0xc1, 1, 0],
        _ => vec![0xc0, 1, 0],
    }
}
impl Union for Section {
    fn members() -> Vec<(&'static str, u64, Vec<u8>)> {
        SECTIONS.iter().map(|s| (s.0, s.1, section_content(s.2))).collect()
    }
    fn member(&self) -> (&'static str, u64) {
        let s = SECTIONS[match self {
            Section::Header(_) => 0,
            Section::DeliveryAnnotations(_) => 1,
            Section::MessageAnnotations(_) => 2,
            Section::Properties(_) => 3,
            Section::ApplicationProperties(_) => 4,
            Section::Data(_) => 5,
            Section::AmqpSequence(_) => 6,
            Section::AmqpValue(_) => 7,
            Section::Footer(_) => 8,
        }];
        (s.0, s.1)
    }
}

fn be(w: &mut Vec<u8>, v: u64, n: usize) {
    for i in 0..n {
        w.push((v >> (8 * (n - 1 - i))) as u8)
    }
}
/// A free numeric descriptor in one of its forms.
fn numeric(w: &mut Vec<u8>) -> u64 {
    w.push(0);
    match sym::pick(3) {
        0 => {
            let v = sym::u64();
            w.push(0x80);
            be(w, v, 8);
            v
        }
        1 => {
            let v = sym::u8();
            w.push(0x53);
            w.push(v);
            v as u64
        }
        _ => {
            w.push(0x44);
            0
        }
    }
}
/// This symbol as the descriptor, in one of its forms.
fn symbolic(w: &mut Vec<u8>, s: &[u8]) {
    w.push(0);
    if sym::pick(2) == 0 {
        w.push(0xa3);
        w.push(s.len() as u8)
    } else {
        w.push(0xb3);
        be(w, s.len() as u64, 4)
    }
    w.extend_from_slice(s)
}
/// `n` free ASCII octets; where `n` is the length of the name, also the name
/// with one octet replaced by any other.
fn damaged(name: &str, n: usize) -> Vec<u8> {
    let i = if n == name.len() { sym::pick(n + 1) } else { n };
    if i == n {
        return sym::text(n).into_bytes();
    }
    let mut s = name.as_bytes().to_vec();
    s[i] = sym::u8();
    s
}

fn numeric_part<T: Composite>() {
    let c = content::<T>();
    let mut w = Vec::new();
    let d = numeric(&mut w);
    w.extend_from_slice(&c);
    judge_part::<T>(&w, d == T::CODE)
}
fn symbolic_part<T: Composite>() {
    let c = content::<T>();
    let s = damaged(T::NAME, T::NAME.len());
    let mut w = Vec::new();
    symbolic(&mut w, &s);
    w.extend_from_slice(&c);
    judge_part::<T>(&w, s == T::NAME.as_bytes())
}
fn judge_part<T: Composite>(w: &[u8], named: bool) {
    match T::decode(w) {
        Ok((rest, v)) => {
            assert!(named, "decoded in spite of another descriptor");
            assert!(rest.is_empty(), "octets left");
            let x = sym::plain(|| T::draw(999, Mode::Bare, Mode::Bare));
            assert!(v == x, "decoded value differs");
            witness!("descriptor of the type")
        }
        Err(_) => {
            assert!(!named, "descriptor of the type refused");
            witness!("another descriptor")
        }
    }
}
fn length_part<T: Composite>() {
    let c = content::<T>();
    let n = sym::pick(T::NAME.len() + 3);
    sym::assume(n != T::NAME.len());
    // the right start, as far as it goes, and any text
    let mut s = sym::text(n).into_bytes();
    if sym::pick(2) == 1 {
        for i in 0..n.min(T::NAME.len()) {
            s[i] = T::NAME.as_bytes()[i]
        }
    }
    let mut w = Vec::new();
    symbolic(&mut w, &s);
    w.extend_from_slice(&c);
    assert!(T::decode(&w).is_err(), "decoded in spite of another descriptor");
}
fn constructor_part<T: Composite>() {
    let c = content::<T>();
    let k = sym::u8();
    let mut w = Vec::new();
    let right = constructor(k, T::NAME, T::CODE, &mut w);
    w.extend_from_slice(&c);
    match T::decode(&w) {
        Ok(_) => {
            assert!(k == right, "another constructor in the descriptor");
            witness!("constructor of a descriptor")
        }
        Err(_) => assert!(k != right, "constructor of the descriptor refused"),
    }
}
/// Descriptor with constructor `k`, followed by what one of the constructors
/// needs; that constructor.
fn constructor(k: u8, name: &str, code: u64, w: &mut Vec<u8>) -> u8 {
    w.push(0);
    w.push(k);
    match sym::pick(4) {
        0 => {
            w.push(code as u8);
            0x53
        }
        1 => {
            be(w, code, 8);
            0x80
        }
        2 => {
            w.push(name.len() as u8);
            w.extend_from_slice(name.as_bytes());
            0xa3
        }
        _ => {
            be(w, name.len() as u64, 4);
            w.extend_from_slice(name.as_bytes());
            0xb3
        }
    }
}
/// Anything that does not start as a described value.
fn plain_part<T: Composite>() {
    let k = sym::u8();
    let mut w = vec![k];
    if sym::pick(2) == 0 {
        w.push(0x53);
        w.push(T::CODE as u8)
    }
    w.extend_from_slice(&content::<T>());
    let good = k == 0 && w[1] == 0x53;
    match T::decode(&w) {
        Ok(_) => assert!(good, "decoded without a descriptor"),
        Err(_) => assert!(!good, "described value refused"),
    }
}

fn numeric_union<U: Union>() {
    let m = U::members();
    let k = sym::pick(m.len());
    let mut w = Vec::new();
    let d = numeric(&mut w);
    w.extend_from_slice(&m[k].2);
    match U::decode(&w) {
        Ok((rest, v)) => {
            assert!(rest.is_empty(), "octets left");
            assert!(v.member().1 == d, "decoded as another type than the descriptor says");
            witness!("descriptor of a member")
        }
        Err(_) => assert!(d != m[k].1, "descriptor of a member refused"),
    }
}
/// Text of every length up to that of the longest name, with the content of
/// a member whose name has that length, or of any member.
fn symbolic_union<U: Union>() {
    let m = U::members();
    let k = sym::pick(m.len());
    let n = sym::pick(33);
    let s = damaged(m[k].0, n);
    let mut w = Vec::new();
    symbolic(&mut w, &s);
    w.extend_from_slice(&m[k].2);
    match U::decode(&w) {
        Ok((rest, v)) => {
            assert!(rest.is_empty(), "octets left");
            assert!(v.member().0.as_bytes() == &s[..], "decoded as another type than the descriptor says");
            witness!("name of a member")
        }
        Err(_) => assert!(s != m[k].0.as_bytes(), "name of a member refused"),
    }
}
fn constructor_union<U: Union>() {
    let m = U::members();
    let i = sym::pick(m.len());
    let k = sym::u8();
    let mut w = Vec::new();
    let right = constructor(k, m[i].0, m[i].1, &mut w);
    w.extend_from_slice(&m[i].2);
    match U::decode(&w) {
        Ok((_, v)) => {
            assert!(k == right, "another constructor in the descriptor");
            assert!(v.member().1 == m[i].1, "decoded as another type than the descriptor says");
            witness!("constructor of a descriptor")
        }
        Err(_) => assert!(k != right, "constructor of the descriptor refused"),
    }
}
fn plain_union<U: Union>() {
    let m = U::members();
    let i = sym::pick(m.len());
    let k = sym::u8();
    let mut w = vec![k];
    if sym::pick(2) == 0 {
        w.push(0x53);
        w.push(m[i].1 as u8)
    }
    w.extend_from_slice(&m[i].2);
    let good = k == 0 && w[1] == 0x53;
    match U::decode(&w) {
        Ok(_) => assert!(good, "decoded without a descriptor"),
        Err(_) => assert!(!good, "described value refused"),
    }
}

/// What the descriptor makes of an empty list, an empty map or a binary.
fn accepted(code: u64, content: u8) -> bool {
    let mut r = false;
    for s in SECTIONS.iter() {
        r |= s.1 == code && (s.2 == content || s.2 == 0)
    }
    r
}

harnesses! {
    // @bound every composite type; all 64-bit numeric descriptors, in all three forms
    c16_numeric {
        let k = sym::pick(COMPOSITES);
        each_composite!(k, numeric_part)
    }
    // @bound every composite type; all ASCII symbols of the length of the name, the name with any one octet replaced; sym8 and sym32
    // @opts {"shards":4}
    c16_symbolic {
        let k = sym::pick(COMPOSITES);
        each_composite!(k, symbolic_part)
    }
    // @bound every composite type; symbols of 0 to 2 octets more than the name, any ASCII text or the name cut short or continued
    // @opts {"shards":4}
    c16_symbolic_length {
        let k = sym::pick(COMPOSITES);
        each_composite!(k, length_part)
    }
    // @bound every composite type; any octet as the constructor of the descriptor
    c16_constructor {
        let k = sym::pick(COMPOSITES);
        each_composite!(k, constructor_part)
    }
    // @bound every composite type; any first octet, with and without the descriptor after it
    c16_undescribed {
        let k = sym::pick(COMPOSITES);
        each_composite!(k, plain_part)
    }
    // @bound frame bodies; all 64-bit numeric descriptors in all forms before the content of each member
    c16_frame_numeric {
        numeric_union::<Frame>()
    }
    // @bound frame bodies; all ASCII symbols of 0-32 octets, each name with any one octet replaced
    // @opts {"shards":4}
    c16_frame_symbolic {
        symbolic_union::<Frame>()
    }
    // @bound frame bodies; any octet as the constructor of the descriptor
    c16_frame_constructor {
        constructor_union::<Frame>()
    }
    // @bound frame bodies; any first octet, with and without the descriptor after it
    c16_frame_undescribed {
        plain_union::<Frame>()
    }
    // @bound SASL bodies; all 64-bit numeric descriptors in all forms before the content of each member
    c16_sasl_numeric {
        numeric_union::<SaslFrameBody>()
    }
    // @bound SASL bodies; all ASCII symbols of 0-32 octets, each name with any one octet replaced
    // @opts {"shards":2}
    c16_sasl_symbolic {
        symbolic_union::<SaslFrameBody>()
    }
    // @bound SASL bodies; any octet as the constructor of the descriptor; any first octet
    c16_sasl_constructor {
        if sym::pick(2) == 0 { constructor_union::<SaslFrameBody>() } else { plain_union::<SaslFrameBody>() }
    }
    // @bound outcomes; all 64-bit numeric descriptors in all forms before the content of each member
    c16_outcome_numeric {
        numeric_union::<Outcome>()
    }
    // @bound outcomes; all ASCII symbols of 0-32 octets, each name with any one octet replaced
    c16_outcome_symbolic {
        symbolic_union::<Outcome>()
    }
    // @bound outcomes; any octet as the constructor of the descriptor; any first octet
    c16_outcome_constructor {
        if sym::pick(2) == 0 { constructor_union::<Outcome>() } else { plain_union::<Outcome>() }
    }
    // @bound delivery states; all 64-bit numeric descriptors in all forms before the content of each member
    c16_state_numeric {
        numeric_union::<DeliveryState>()
    }
    // @bound delivery states; all ASCII symbols of 0-32 octets, each name with any one octet replaced
    c16_state_symbolic {
        symbolic_union::<DeliveryState>()
    }
    // @bound delivery states; any octet as the constructor of the descriptor; any first octet
    c16_state_constructor {
        if sym::pick(2) == 0 { constructor_union::<DeliveryState>() } else { plain_union::<DeliveryState>() }
    }
    // @bound sections; all 64-bit numeric descriptors in all forms before an empty list, an empty map or a binary
    c16_section_numeric {
        numeric_union::<Section>()
    }
    // @bound sections; all ASCII symbols of 0-32 octets, each name with any one octet replaced
    // @opts {"shards":4}
    c16_section_symbolic {
        symbolic_union::<Section>()
    }
    // @bound sections; any octet as the constructor of the descriptor; any first octet
    c16_section_constructor {
        if sym::pick(2) == 0 { constructor_union::<Section>() } else { plain_union::<Section>() }
    }
    // @bound messages of one section: all numeric descriptors in all forms and every name, before an empty list, an empty map or a binary
    c16_message {
        let content = [0xc0u8, 0xc1, 0xa0][sym::pick(3)];
        let mut w = Vec::new();
        let d = if sym::pick(2) == 0 {
            numeric(&mut w)
        } else {
            let s = SECTIONS[sym::pick(9)];
            symbolic(&mut w, s.0.as_bytes());
            s.1
        };
        w.extend_from_slice(&section_content(content));
        let wanted = accepted(d, content);
        match (InMessage::decode(&w), OutMessage::decode(&w)) {
            (Ok((_, i)), Ok((_, o))) => {
                assert!(wanted, "message of a section that is none");
                // written again, the section stands under the same code
                for e in &[enc(&i), enc(&o)] {
                    let mut r = R::new(e);
                    if d == 0x78 {
                        // the footer follows the body
                        assert!(r.descriptor() == 0x75 && r.binary().is_empty(), "body of a message that has none");
                    }
                    assert!(r.descriptor() == d, "section taken for another");
                    assert!(e[r.p] == content, "content of the section");
                }
                witness!("a section");
            }
            (Err(_), Err(_)) => {
                assert!(!wanted, "section of a message refused");
                witness!("not a section")
            }
            _ => panic!("messages read differently"),
        }
    }
    // @bound described dynamic values: all numeric descriptors in all forms, all ASCII symbols of 0-6 octets, before any ulong
    c16_variant {
        let mut w = Vec::new();
        let d = if sym::pick(2) == 0 {
            Descriptor::Ulong(numeric(&mut w))
        } else {
            let n = sym::pick(7);
            let s = sym::text(n).into_bytes();
            symbolic(&mut w, &s);
            Descriptor::Symbol(Symbol::from_slice(sym_str(&s)))
        };
        let v = sym::u64();
        w.push(0x80);
        be(&mut w, v, 8);
        let (rest, got) = ok(Variant::decode(&w));
        assert!(rest.is_empty(), "octets left");
        assert!(got.same(&Variant::Described((d, Box::new(Variant::Ulong(v))))), "described value changed");
        // and back
        let e = enc(&got);
        let (rest, again) = ok(Variant::decode(&e));
        assert!(rest.is_empty() && again.same(&got), "described value changed by a round trip");
    }
    // @bound described dynamic values: any octet as the constructor of the descriptor
    c16_variant_constructor {
        let k = sym::u8();
        let mut w = Vec::new();
        let right = constructor(k, "zz", 0x24, &mut w);
        w.push(0x41);
        match Variant::decode(&w) {
            Ok((rest, _)) if rest.is_empty() => {
                assert!(k == right, "another constructor in the descriptor");
                witness!("constructor of a descriptor")
            }
            _ => assert!(k != right, "constructor of the descriptor refused"),
        }
    }
}
fn sym_str(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
