//! C05: the decoders accept the forms of their type and no other constructor.
use crate::each_composite;
use crate::fields::*;
use crate::kinds::*;
use crate::spec::{ok, whole};
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{AmqpParseError, Decode, Encode};
use bytes::Bytes;
use hashbrown::HashMap;
use ordered_float::OrderedFloat;
use uuid::Uuid;

/// An octet that is none of `codes`.
fn other(codes: &[u8]) -> u8 {
    let c = sym::u8();
    for k in codes {
        sym::assume(c != *k)
    }
    c
}
fn named<T>(r: Result<(&[u8], T), AmqpParseError>, c: u8) {
    match r {
        Ok(_) => panic!("a constructor of another type was accepted"),
        Err(AmqpParseError::InvalidFormatCode(x)) => assert!(x == c, "the error names another octet"),
        Err(_) => panic!("the error does not name the constructor"),
    }
}
/// Every other constructor, before 0, 1 or 20 free octets.
fn reject<T: Decode>(codes: &[u8]) {
    let c = other(codes);
    let mut w = vec![c];
    w.extend_from_slice(&sym::octets([0, 1, 20][sym::pick(3)]));
    named(T::decode(&w), c)
}
fn rejects<T: Decode>(codes: &[u8])
where
    Option<T>: Decode,
{
    if sym::pick(2) == 0 {
        return reject::<T>(codes);
    }
    let c = other(codes);
    let mut w = vec![c];
    w.extend_from_slice(&sym::octets(20));
    if c == 0x40 {
        let (rest, v) = ok(Option::<T>::decode(&w));
        assert!(v.is_none() && rest == &w[1..], "null is not the absent value");
    } else {
        named(Option::<T>::decode(&w), c)
    }
}
const ARRAY: &[u8] = &[0xe0, 0xf0];
const LIST: &[u8] = &[0x45, 0xc0, 0xd0];
const MAP: &[u8] = &[0xc1, 0xd1];
const DESCRIPTOR: &[u8] = &[0x44, 0x53, 0x80, 0xa3, 0xb3];

/// The value of kind `k` read as its own type.
fn typed(k: usize, w: &[u8]) -> Option<Variant> {
    fn read<T: Decode>(w: &[u8], f: fn(T) -> Variant) -> Option<Variant>
    where
        Option<T>: Decode,
    {
        let a = f(whole(T::decode(w)));
        match whole(Option::<T>::decode(w)) {
            Some(b) => assert!(alike(&a, &f(b)), "optional value differs"),
            None => panic!("a value was taken for null"),
        }
        Some(a)
    }
    match k {
        1 => read(w, Variant::Boolean),
        2 => read(w, Variant::Ubyte),
        3 => read(w, Variant::Ushort),
        4 => read(w, Variant::Uint),
        5 => read(w, Variant::Ulong),
        6 => read(w, Variant::Byte),
        7 => read(w, Variant::Short),
        8 => read(w, Variant::Int),
        9 => read(w, Variant::Long),
        10 => read(w, |v| Variant::Float(OrderedFloat(v))),
        11 => read(w, |v| Variant::Double(OrderedFloat(v))),
        12 => read(w, Variant::Char),
        13 => read(w, Variant::Timestamp),
        14 => read(w, Variant::Uuid),
        15 => read(w, Variant::Binary),
        16 => read(w, Variant::String),
        17 => read(w, Variant::Symbol),
        19 | 20 => read(w, Variant::List),
        21 | 22 => read(w, |m: HashMap<Variant, Variant>| Variant::Map(VariantMap::new(m))),
        25 => read(w, |s: ByteStr| Variant::String(s.into())),
        _ => None,
    }
}
/// Every form of a value means the same.
fn forms(k: usize, n: usize) {
    let v = kind(k, n);
    let mut w = Vec::new();
    v.write(&mut w, true);
    if let Some(t) = typed(k, &w) {
        assert!(alike(&v, &t), "value differs from what was written");
    }
    let t = sym::u8();
    w.push(t);
    let (rest, d) = ok(Variant::decode(&w));
    assert!(rest.len() == 1 && rest[0] == t, "octets after the value");
    assert!(alike(&v, &d), "dynamic value differs from what was written");
}
fn field<T: Field + Decode>(equal: fn(&T, &T) -> bool) {
    let v = T::any(Mode::Rich);
    let mut w = Vec::new();
    v.write(&mut w, true);
    let d: T = whole(T::decode(&w));
    assert!(equal(&v, &d), "value differs from what was written");
}
/// Two elements after constructor `c` in an array of either width.
fn array<T>(c: u8, a: &[u8], b: &[u8]) -> Result<Vec<T>, AmqpParseError>
where
    Vec<T>: Decode,
{
    let mut body = vec![c];
    body.extend_from_slice(a);
    body.extend_from_slice(b);
    let mut w = Vec::new();
    compound(&mut w, true, 0xe0, 2, &body);
    match <Vec<T>>::decode(&w) {
        Ok(r) => Ok(whole(Ok(r))),
        Err(e) => Err(e),
    }
}
/// Elements in every constructor of their type, and in every other.
fn elements<T: Decode + PartialEq>(codes: &[u8])
where
    Vec<T>: Decode,
{
    let k = sym::pick(codes.len() + 1);
    if k == codes.len() {
        let c = other(codes);
        let x = sym::octets(8);
        return match array::<T>(c, &x, &x) {
            Ok(_) => panic!("an element constructor of another type was accepted"),
            Err(AmqpParseError::InvalidFormatCode(x)) => assert!(x == c, "the error names another octet"),
            Err(_) => panic!("the error does not name the constructor"),
        };
    }
    // the contents of one value, taken apart from its constructor
    let c = codes[k];
    let (a, b) = (content(c), content(c));
    let v = ok_vec(array::<T>(c, &a, &b));
    assert!(v.len() == 2, "element count");
    let alone = |x: &[u8]| {
        let mut w = vec![c];
        w.extend_from_slice(x);
        whole(T::decode(&w))
    };
    assert!(v[0] == alone(&a) && v[1] == alone(&b), "element differs from the value alone");
}
fn ok_vec<T>(r: Result<T, AmqpParseError>) -> T {
    match r {
        Ok(v) => v,
        Err(_) => panic!("array was rejected"),
    }
}
/// Free contents for constructor `c`.
fn content(c: u8) -> Vec<u8> {
    let mut w = Vec::new();
    match c {
        0x40..=0x45 => {}
        0x50..=0x55 => w.push(sym::u8()),
        0x56 => w.push(sym::bool() as u8),
        0x60..=0x6f => w = sym::octets(2),
        0x73 => {
            let v = sym::char() as u32;
            for i in 0..4 {
                w.push((v >> (24 - 8 * i)) as u8)
            }
        }
        0x72 => {
            // zero or more, finite
            w = sym::octets(4);
            sym::assume(w[0] < 0x7f)
        }
        0x82 => {
            w = sym::octets(8);
            sym::assume(w[0] < 0x7f)
        }
        0x70..=0x7f => w = sym::octets(4),
        0x83 => w = vec![0, 0, 1, 0x31, 0x67, 0x56, 0x45, sym::u8()],
        0x80..=0x8f => w = sym::octets(8),
        0x98 => w = sym::octets(16),
        _ => {
            let n = sym::pick(3);
            if c >= 0xb0 {
                w.extend_from_slice(&[0, 0, 0])
            }
            w.push(n as u8);
            w.extend_from_slice(&letters(n))
        }
    }
    w
}
/// Field in turn with every constructor that is not of its type.
fn bad_field<T: Composite>() {
    if T::N == 0 {
        return;
    }
    let k = sym::pick(T::N);
    let v = T::draw(999, Mode::Poor, Mode::Poor);
    let mut b = Vec::new();
    let mut c = 0;
    for i in 0..T::N {
        if i == k {
            c = other(T::codes(i));
            sym::assume(c != 0x40);
            b.push(c);
            b.extend_from_slice(&[0, 0, 0, 0])
        } else {
            v.write_field(i, &mut b, false)
        }
    }
    let mut w = Vec::new();
    descriptor::<T>(&mut w, false);
    list(&mut w, false, T::N, &b);
    named(T::decode(&w), c)
}
/// The value described, or its list, has another constructor.
fn bad_outside<T: Composite>() {
    let v = T::draw(999, Mode::Poor, Mode::Poor);
    let mut w = Vec::new();
    v.write(&mut w, false);
    let (at, codes) = match sym::pick(3) {
        0 => (0, T::CODES),
        1 => (1, DESCRIPTOR),
        _ => (3, LIST),
    };
    w[at] = other(codes);
    let c = w[at];
    named(T::decode(&w), c)
}

harnesses! {
    // @bound all 256 constructors before 0, 1 or 20 free octets, for each scalar type and its optional form
    // @opts {"shards":18}
    c05_constructor {
        match sym::pick(18) {
            0 => rejects::<bool>(bool::CODES),
            1 => rejects::<u8>(u8::CODES),
            2 => rejects::<u16>(u16::CODES),
            3 => rejects::<u32>(u32::CODES),
            4 => rejects::<u64>(u64::CODES),
            5 => rejects::<i8>(&[0x51]),
            6 => rejects::<i16>(&[0x61]),
            7 => rejects::<i32>(&[0x54, 0x71]),
            8 => rejects::<i64>(&[0x55, 0x81]),
            9 => rejects::<f32>(&[0x72]),
            10 => rejects::<f64>(&[0x82]),
            11 => rejects::<char>(&[0x73]),
            12 => rejects::<Timestamp>(Timestamp::CODES),
            13 => rejects::<Uuid>(Uuid::CODES),
            14 => rejects::<Bytes>(Bytes::CODES),
            15 => rejects::<ByteStr>(ByteStr::CODES),
            16 => rejects::<Str>(Str::CODES),
            _ => rejects::<Symbol>(Symbol::CODES),
        }
    }
    // @bound all 256 constructors for compound types, dynamic values, descriptors, message ids and restricted types, and their optional forms
    // @opts {"shards":21}
    c05_constructor_compound {
        match sym::pick(21) {
            0 => rejects::<Vec<u32>>(ARRAY),
            1 => rejects::<List>(LIST),
            2 => rejects::<Map>(MAP),
            3 => rejects::<Fields>(MAP),
            4 => rejects::<VecVariantMap>(MAP),
            5 => rejects::<Symbols>(Symbols::CODES),
            6 => {
                let mut codes = Variant::CODES.to_vec();
                codes.push(0x40);
                reject::<Variant>(&codes)
            }
            7 => rejects::<Descriptor>(DESCRIPTOR),
            8 => rejects::<MessageId>(MessageId::CODES),
            9 => rejects::<ErrorCondition>(ErrorCondition::CODES),
            10 => rejects::<DistributionMode>(DistributionMode::CODES),
            11 => rejects::<Role>(Role::CODES),
            12 => rejects::<SenderSettleMode>(SenderSettleMode::CODES),
            13 => rejects::<ReceiverSettleMode>(ReceiverSettleMode::CODES),
            14 => rejects::<SaslCode>(SaslCode::CODES),
            15 => rejects::<TerminusDurability>(TerminusDurability::CODES),
            16 => rejects::<TerminusExpiryPolicy>(TerminusExpiryPolicy::CODES),
            17 => rejects::<AmqpError>(AmqpError::CODES),
            18 => rejects::<ConnectionError>(ConnectionError::CODES),
            19 => rejects::<SessionError>(SessionError::CODES),
            _ => rejects::<LinkError>(LinkError::CODES),
        }
    }
    // @bound all 256 constructors for delivery states, outcomes, sections and SASL bodies
    c05_constructor_union {
        match sym::pick(4) {
            0 => rejects::<DeliveryState>(&[0]),
            1 => rejects::<Outcome>(&[0]),
            2 => rejects::<Section>(&[0]),
            _ => rejects::<SaslFrameBody>(&[0]),
        }
    }
    // @bound every wire form of a value of each of 26 kinds with free contents and texts of 0 to 2 octets, read as dynamic value, as its type and as optional
    // @opts {"shards":26}
    c05_forms {
        let k = sym::pick(KINDS);
        forms(k, sym::pick(3))
    }
    // @bound every wire form of identifiers, error conditions, distribution modes, multiple symbols, maps and restricted types
    // @opts {"shards":16}
    c05_forms_typed {
        match sym::pick(16) {
            0 => field::<MessageId>(|a, b| a == b),
            1 => {
                // a custom condition of up to 2 octets is none of the standard ones
                field::<ErrorCondition>(|a, b| a == b)
            }
            2 => field::<DistributionMode>(|a, b| a == b),
            3 => field::<Symbols>(|a, b| a == b),
            4 => field::<Fields>(|a, b| a == b),
            5 => field::<FilterSet>(|a, b| a == b),
            6 => field::<StringVariantMap>(|a, b| a == b),
            7 => field::<Role>(|a, b| a == b),
            8 => field::<SenderSettleMode>(|a, b| a == b),
            9 => field::<ReceiverSettleMode>(|a, b| a == b),
            10 => field::<SaslCode>(|a, b| a == b),
            11 => field::<TerminusDurability>(|a, b| a == b),
            12 => field::<TerminusExpiryPolicy>(|a, b| a == b),
            13 => field::<AmqpError>(|a, b| a == b),
            14 => match sym::pick(3) {
                0 => field::<ConnectionError>(|a, b| a == b),
                1 => field::<SessionError>(|a, b| a == b),
                _ => field::<LinkError>(|a, b| a == b),
            },
            _ => field::<Option<Symbols>>(|a, b| a == b),
        }
    }
    // @bound arrays of two elements in every constructor of the element type with free contents, and in each other of the 256; both array widths
    // @opts {"shards":17}
    c05_elements {
        match sym::pick(17) {
            0 => elements::<bool>(bool::CODES),
            1 => elements::<u8>(u8::CODES),
            2 => elements::<u16>(u16::CODES),
            3 => elements::<u32>(u32::CODES),
            4 => elements::<u64>(u64::CODES),
            5 => elements::<i8>(&[0x51]),
            6 => elements::<i16>(&[0x61]),
            7 => elements::<i32>(&[0x54, 0x71]),
            8 => elements::<i64>(&[0x55, 0x81]),
            9 => elements::<f32>(&[0x72]),
            10 => elements::<f64>(&[0x82]),
            11 => elements::<char>(&[0x73]),
            12 => elements::<Timestamp>(Timestamp::CODES),
            13 => elements::<Uuid>(Uuid::CODES),
            14 => elements::<Bytes>(Bytes::CODES),
            15 => elements::<ByteStr>(ByteStr::CODES),
            _ => elements::<Symbol>(Symbol::CODES),
        }
    }
    // @bound all 256 constructors for each element in turn of a list of three, for the key and the value of a map of each type, and for the descriptor and value of a described value
    // @opts {"shards":3}
    c05_inner {
        let mut codes = Variant::CODES.to_vec();
        codes.push(0x40);
        let mut w = Vec::new();
        match sym::pick(3) {
            0 => {
                let k = sym::pick(3);
                let c = other(&codes);
                let mut b = Vec::new();
                for i in 0..3 {
                    if i == k { b.extend_from_slice(&[c, 0, 0]) } else { Variant::Ubyte(sym::u8()).write(&mut b, false) }
                }
                list(&mut w, true, 3, &b);
                if sym::pick(2) == 0 { named(List::decode(&w), c) } else { named(Variant::decode(&w), c) }
            }
            1 => {
                let key = sym::pick(2) == 0;
                let ty = sym::pick(4);
                let text = if ty == 0 { 0xa3 } else { 0xa1 };
                let c = if !key { other(&codes) } else { other(match ty { 0 => Symbol::CODES, 3 => &codes, _ => Str::CODES }) };
                let mut b = Vec::new();
                if key { b.extend_from_slice(&[c, 0, 0, 0x40]) } else { b.extend_from_slice(&[text, 1, b'k', c, 0, 0]) }
                compound(&mut w, true, 0xc1, 2, &b);
                match ty {
                    0 => named(Fields::decode(&w), c),
                    1 => named(StringVariantMap::decode(&w), c),
                    2 => named(VecVariantMap::decode(&w), c),
                    _ => named(Map::decode(&w), c),
                }
            }
            _ => {
                w.push(0);
                let c;
                if sym::pick(2) == 0 {
                    c = other(DESCRIPTOR);
                    w.extend_from_slice(&[c, 0, 0, 0x40]);
                } else {
                    c = other(&codes);
                    w.extend_from_slice(&[0x53, sym::u8(), c, 0, 0]);
                }
                named(Variant::decode(&w), c)
            }
        }
    }
    // @bound each field in turn of each of the 24 composite types, with all 256 constructors not of its type
    // @opts {"shards":24}
    c05_field {
        each_composite!(sym::pick(24), bad_field)
    }
    // @bound all 256 constructors of the described value, of its descriptor and of its list, for each of the 24 composite types
    // @opts {"shards":24}
    c05_composite {
        each_composite!(sym::pick(24), bad_outside)
    }
    // @bound lists of 0 to 2 values in all three forms, in an optional list and as dynamic value
    c05_list_forms {
        let n = sym::pick(3);
        let mut b = Vec::new();
        let mut v = Vec::new();
        for _ in 0..n {
            let x = Variant::Ulong(sym::u64());
            x.write(&mut b, true);
            v.push(x)
        }
        let mut w = Vec::new();
        list(&mut w, true, n, &b);
        let l = List(v);
        assert!(whole(List::decode(&w)) == l, "list differs from what was written");
        assert!(whole(Option::<List>::decode(&w)) == Some(l.clone()), "optional list differs from what was written");
        assert!(whole(Variant::decode(&w)) == Variant::List(l), "dynamic list differs from what was written");
    }
    // @bound lists of 3 values of all triples of 12 kinds in every combination of forms
    // @opts {"shards":144,"timeout":3000}
    c05_forms_t {
        let k = [1, 4, 5, 8, 9, 15, 16, 17, 19, 20, 22, 23];
        let v = Variant::List(List(vec![kind(k[sym::pick(12)], 1), kind(k[sym::pick(12)], 2), kind(k[sym::pick(12)], 0)]));
        let mut w = Vec::new();
        v.write(&mut w, true);
        assert!(alike(&v, &whole(Variant::decode(&w))), "list differs from what was written");
    }
}
