//! Dynamic values of every kind, and element types of arrays.
use crate::fields::{letters, text, Field, Mode};
use crate::spec::R;
use crate::sym;
use amqp_codec::protocol::Timestamp;
use amqp_codec::types::*;
use bytes::Bytes;
use hashbrown::HashMap;
use ordered_float::OrderedFloat;
use uuid::Uuid;

/// Kinds of scalar values, then of compound ones.
pub const SCALARS: usize = 19;
pub const KINDS: usize = 26;

pub fn blob(n: usize) -> Bytes {
    Bytes::from(sym::octets(n))
}
pub fn string(n: usize) -> ByteStr {
    text(letters(n))
}
/// A value of kind `k` with symbolic contents; texts of `n` octets.
pub fn kind(k: usize, n: usize) -> Variant {
    match k {
        0 => Variant::Null,
        1 => Variant::Boolean(sym::bool()),
        2 => Variant::Ubyte(sym::u8()),
        3 => Variant::Ushort(sym::u16()),
        4 => Variant::Uint(sym::u32()),
        5 => Variant::Ulong(sym::u64()),
        6 => Variant::Byte(sym::i8()),
        7 => Variant::Short(sym::i16()),
        8 => Variant::Int(sym::i32()),
        9 => Variant::Long(sym::i64()),
        10 => Variant::Float(OrderedFloat(f32::from_bits(sym::u32()))),
        11 => Variant::Double(OrderedFloat(f64::from_bits(sym::u64()))),
        12 => Variant::Char(sym::char()),
        13 => Variant::Timestamp(Timestamp::any(Mode::Poor)),
        14 => Variant::Uuid(Uuid::any(Mode::Poor)),
        15 => Variant::Binary(blob(n)),
        16 => Variant::String(Str::from(string(n))),
        17 => Variant::Symbol(Symbol::from(string(n))),
        18 => Variant::StaticSymbol(StaticSymbol(["", "a", "static"][n.min(2)])),
        19 => Variant::List(List(vec![])),
        20 => Variant::List(List(vec![Variant::Uint(sym::u32()), Variant::Symbol(Symbol::from(string(n)))])),
        21 => Variant::Map(VariantMap::new(HashMap::new())),
        22 => map1(Variant::Int(sym::i32()), Variant::Binary(blob(n))),
        23 => Variant::Described((Descriptor::Ulong(sym::u64()), Box::new(Variant::String(Str::from(string(n)))))),
        24 => Variant::Described((Descriptor::Symbol(Symbol::from(string(n))), Box::new(Variant::Long(sym::i64())))),
        _ => Variant::String(Str::Static(["", "t", "static text"][n.min(2)])),
    }
}
pub fn map1(k: Variant, v: Variant) -> Variant {
    let mut m = HashMap::new();
    m.insert(k, v);
    Variant::Map(VariantMap::new(m))
}
/// Equality that looks at the representation: kinds and bits.
pub fn alike(a: &Variant, b: &Variant) -> bool {
    match (a, b) {
        (Variant::Null, Variant::Null) => true,
        (Variant::Boolean(a), Variant::Boolean(b)) => a == b,
        (Variant::Ubyte(a), Variant::Ubyte(b)) => a == b,
        (Variant::Ushort(a), Variant::Ushort(b)) => a == b,
        (Variant::Uint(a), Variant::Uint(b)) => a == b,
        (Variant::Ulong(a), Variant::Ulong(b)) => a == b,
        (Variant::Byte(a), Variant::Byte(b)) => a == b,
        (Variant::Short(a), Variant::Short(b)) => a == b,
        (Variant::Int(a), Variant::Int(b)) => a == b,
        (Variant::Long(a), Variant::Long(b)) => a == b,
        (Variant::Float(a), Variant::Float(b)) => a.to_bits() == b.to_bits(),
        (Variant::Double(a), Variant::Double(b)) => a.to_bits() == b.to_bits(),
        (Variant::Char(a), Variant::Char(b)) => a == b,
        (Variant::Timestamp(a), Variant::Timestamp(b)) => a == b,
        (Variant::Uuid(a), Variant::Uuid(b)) => a.as_bytes() == b.as_bytes(),
        (Variant::Binary(a), Variant::Binary(b)) => a[..] == b[..],
        (Variant::String(a), Variant::String(b)) => a.as_bytes() == b.as_bytes(),
        (Variant::Symbol(a), Variant::Symbol(b)) => a.as_bytes() == b.as_bytes(),
        (Variant::StaticSymbol(a), Variant::StaticSymbol(b)) => a.0.as_bytes() == b.0.as_bytes(),
        (Variant::StaticSymbol(a), Variant::Symbol(b)) => a.0.as_bytes() == b.as_bytes(),
        (Variant::List(a), Variant::List(b)) => {
            if a.len() != b.len() {
                return false;
            }
            let mut i = 0;
            while i < a.len() {
                if !alike(&a.0[i], &b.0[i]) {
                    return false;
                }
                i += 1
            }
            true
        }
        (Variant::Map(a), Variant::Map(b)) => {
            if a.map.len() != b.map.len() {
                return false;
            }
            if a.map.len() == 1 {
                // keys may be equal in another way than by representation
                let (ka, va) = a.map.iter().next().unwrap();
                let (kb, vb) = b.map.iter().next().unwrap();
                return alike(ka, kb) && alike(va, vb);
            }
            a.map.iter().all(|(k, v)| b.map.get(k).map_or(false, |w| alike(v, w)))
        }
        (Variant::Described((d, a)), Variant::Described((e, b))) => {
            (match (d, e) {
                (Descriptor::Ulong(a), Descriptor::Ulong(b)) => a == b,
                (Descriptor::Symbol(a), Descriptor::Symbol(b)) => a.as_bytes() == b.as_bytes(),
                _ => false,
            }) && alike(a, b)
        }
        _ => false,
    }
}

/// Element types of arrays.
pub trait Item: Sized + Clone {
    /// constructor the encoder uses
    const CODE: u8;
    /// octets of an element, besides those of a text of `n` octets
    const WIDTH: usize;
    const VARIABLE: bool = false;
    fn item(n: usize) -> Self;
    /// Read an element, without constructor, and compare.
    fn read(&self, r: &mut R);
    fn equal(&self, o: &Self) -> bool;
}
macro_rules! items {
    ($($t:ty: $code:literal $w:literal $draw:expr, |$s:ident, $r:ident| $read:expr;)*) => {
        $( impl Item for $t {
            const CODE: u8 = $code;
            const WIDTH: usize = $w;
            fn item(_: usize) -> $t { $draw }
            fn read(&self, $r: &mut R) { let $s = self; assert!($read, "element of the array on the wire"); }
            fn equal(&self, o: &$t) -> bool { *self == *o }
        } )*
    };
}
items! {
    bool: 0x56 1 sym::bool(), |s, r| r.u8() == *s as u8;
    u8: 0x50 1 sym::u8(), |s, r| r.u8() == *s;
    u16: 0x60 2 sym::u16(), |s, r| r.be16() == *s;
    u32: 0x70 4 sym::u32(), |s, r| r.be32() == *s;
    u64: 0x80 8 sym::u64(), |s, r| r.be64() == *s;
    i8: 0x51 1 sym::i8(), |s, r| r.u8() as i8 == *s;
    i16: 0x61 2 sym::i16(), |s, r| r.be16() as i16 == *s;
    i32: 0x71 4 sym::i32(), |s, r| r.be32() as i32 == *s;
    i64: 0x81 8 sym::i64(), |s, r| r.be64() as i64 == *s;
    char: 0x73 4 sym::char(), |s, r| r.be32() == *s as u32;
    Timestamp: 0x83 8 Timestamp::any(Mode::Poor), |s, r| r.be64() as i64 == s.timestamp_millis();
    Uuid: 0x98 16 Uuid::any(Mode::Poor), |s, r| { let mut k = 0; while k < 16 && r.u8() == s.as_bytes()[k] { k += 1 } k == 16 };
}
impl Item for f32 {
    const CODE: u8 = 0x72;
    const WIDTH: usize = 4;
    fn item(_: usize) -> f32 {
        f32::from_bits(sym::u32())
    }
    fn read(&self, r: &mut R) {
        assert!(r.be32() == self.to_bits(), "element of the array on the wire");
    }
    fn equal(&self, o: &f32) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Item for f64 {
    const CODE: u8 = 0x82;
    const WIDTH: usize = 8;
    fn item(_: usize) -> f64 {
        f64::from_bits(sym::u64())
    }
    fn read(&self, r: &mut R) {
        assert!(r.be64() == self.to_bits(), "element of the array on the wire");
    }
    fn equal(&self, o: &f64) -> bool {
        self.to_bits() == o.to_bits()
    }
}
fn octets(r: &mut R, b: &[u8]) {
    assert!(r.be32() as usize == b.len(), "length of an array element");
    let mut k = 0;
    while k < b.len() {
        assert!(r.u8() == b[k], "octet of an array element");
        k += 1
    }
}
macro_rules! long_items {
    ($($t:ty: $code:literal $draw:expr, $of:expr;)*) => {
        $( impl Item for $t {
            const CODE: u8 = $code;
            const WIDTH: usize = 4;
            const VARIABLE: bool = true;
            fn item(n: usize) -> $t { let f: fn(usize) -> $t = $draw; f(n) }
            fn read(&self, r: &mut R) { let f: fn(&$t) -> &[u8] = $of; octets(r, f(self)) }
            fn equal(&self, o: &$t) -> bool { let f: fn(&$t) -> &[u8] = $of; f(self) == f(o) }
        } )*
    };
}
long_items! {
    Bytes: 0xb0 |n| long_blob(n), |s| &s[..];
    ByteStr: 0xb1 |n| string(n), |s| s.as_bytes();
    Symbol: 0xb3 |n| Symbol::from(string(n)), |s| s.as_bytes();
}
/// Octets with free ends.
pub fn long_blob(n: usize) -> Bytes {
    let mut b = vec![7; n];
    for i in 0..n {
        if i < 3 || i + 1 == n {
            b[i] = sym::u8()
        }
    }
    Bytes::from(b)
}
