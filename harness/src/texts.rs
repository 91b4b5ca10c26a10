//! Texts in every way they can be stored, dynamic values made of them.
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use bytes::Bytes;
use hashbrown::HashMap;

pub fn leak(b: &[u8]) -> &'static str {
    unsafe { std::str::from_utf8_unchecked(Box::leak(b.to_vec().into_boxed_slice())) }
}
/// This text, stored in one of the possible ways.
pub fn stored(b: &[u8], how: usize) -> Str {
    match how {
        0 => Str::from(leak(b)),
        1 => Str::from(crate::fields::text(b.to_vec())),
        2 => Str::from_str(leak(b)),
        // part of a larger buffer
        _ => {
            let mut w = vec![b'x'];
            w.extend_from_slice(b);
            w.extend_from_slice(b"yz");
            let all = Bytes::from(w);
            Str::from(unsafe { ByteStr::from_utf8_unchecked(all.slice(1, 1 + b.len())) })
        }
    }
}
pub fn one_text(n: usize) -> Vec<u8> {
    sym::text(sym::pick(n + 1)).into_bytes()
}
pub const KINDS: usize = 24;
/// A dynamic value of the `k`th kind with free contents.
pub fn value(k: usize, depth: usize) -> Variant {
    match k {
        0 => Variant::Null,
        1 => Variant::Boolean(sym::bool()),
        2 => Variant::Ubyte(sym::u8()),
        3 => Variant::Ushort(sym::u16()),
        4 => Variant::Uint(sym::u32()),
        5 => Variant::Ulong(sym::u64()),
        6 => Variant::Byte(sym::i8()),
        7 => Variant::Short(sym::i16()),
        8 => Variant::Int(sym::i32()),
        9 => Variant::Long(sym::i64()),
        10 => Variant::Float(f32::from_bits(sym::u32()).into()),
        11 => Variant::Double(f64::from_bits(sym::u64()).into()),
        12 => Variant::Char(sym::char()),
        13 => Variant::Timestamp(instant()),
        14 => {
            let mut b = [0; 16];
            sym::fill(&mut b);
            Variant::Uuid(uuid::Uuid::from_bytes(b))
        }
        15 => Variant::Binary(Bytes::from(sym::octets(sym::pick(3)))),
        16 => Variant::String(stored(&one_text(2), sym::pick(2))),
        17 => Variant::Symbol(Symbol(stored(&one_text(2), sym::pick(2)))),
        18 => Variant::StaticSymbol(StaticSymbol(leak(&one_text(2)))),
        19 => Variant::List(List((0..sym::pick(3)).map(|_| element(depth)).collect())),
        20 => {
            let mut m = HashMap::new();
            for i in 0..sym::pick(3) {
                m.insert(Variant::from(["k", "other"][i]), element(depth));
            }
            Variant::Map(VariantMap::new(m))
        }
        // keys in another order, another way of storing them
        21 => {
            let mut m = HashMap::new();
            m.insert(Variant::from(ByteStr::from_str("other")), element(depth));
            m.insert(Variant::from(ByteStr::from_str("k")), element(depth));
            Variant::Map(VariantMap::new(m))
        }
        22 => Variant::Described((Descriptor::Ulong(sym::u64()), Box::new(element(depth)))),
        _ => Variant::Described((Descriptor::Symbol(Symbol(stored(&one_text(1), sym::pick(2)))), Box::new(element(depth)))),
    }
}
/// One of three seconds, any nanosecond.
pub fn instant() -> Timestamp {
    let n = sym::u32();
    sym::assume(n < 1_000_000_000);
    chrono::TimeZone::timestamp(&chrono::Utc, [0, -1, 1_500_000_000][sym::pick(3)], n)
}
pub fn element(depth: usize) -> Variant {
    match depth {
        0 => Variant::Ubyte(sym::u8()),
        1 => value([2, 10, 16][sym::pick(3)], 0),
        _ => value([2, 19, 20, 22][sym::pick(4)], 0),
    }
}
