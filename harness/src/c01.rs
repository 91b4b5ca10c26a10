//! C01: scalar values survive encoding and have a specified wire form.
use crate::spec::{enc, whole, R};
use crate::sym;
use amqp_codec::types::Variant;
use amqp_codec::Decode;
use ordered_float::OrderedFloat;
use uuid::Uuid;

macro_rules! scalar {
    ($v:expr, $t:ty, $read:ident, $bits:expr, $variant:expr) => {{
        let v: $t = $v;
        let bits = $bits;
        let e = enc(&v);
        let mut r = R::new(&e);
        assert!(r.$read() == bits(v), "wire form of the value");
        r.end();
        let d: $t = whole(<$t>::decode(&e));
        assert!(bits(d) == bits(v), "value changed by encoding and decoding");
        let d: Option<$t> = whole(Option::<$t>::decode(&e));
        assert!(d.map(bits) == Some(bits(v)), "optional value changed");
        let e2 = enc(&Some(v));
        assert!(crate::spec::same(&e2, &e), "optional value has another wire form");
        let var = $variant(v);
        let e3 = enc(&var);
        let mut r = R::new(&e3);
        assert!(r.$read() == bits(v), "wire form of the variant");
        r.end();
        assert!(crate::spec::same(&e3, &e), "variant has another wire form");
        var
    }};
}

/// Types with one wire form: the variant is decoded from the encoding itself.
macro_rules! fixed {
    ($($a:tt)*) => {{
        let var = scalar!($($a)*);
        let back: Variant = whole(Variant::decode(&enc(&var)));
        assert!(back == var, "variant changed by encoding and decoding");
    }};
}

/// A spec-conforming encoding, octets free, decodes to the value it denotes.
macro_rules! form {
    ($t:ty, $code:expr, $n:expr, $read:ident, $conv:expr, $variant:path) => {{
        let mut b = [0u8; 1 + $n];
        b[0] = $code;
        sym::fill(&mut b[1..]);
        let mut r = R::new(&b);
        let want = $conv(r.$read());
        let v: $t = whole(<$t>::decode(&b));
        assert!(v == want, "decoded value");
        match whole(Variant::decode(&b)) {
            $variant(v) => assert!(v == want, "decoded variant"),
            _ => panic!("decoded as another type"),
        }
    }};
}

fn id<T>(v: T) -> T {
    v
}

harnesses! {
    // @bound every bool, u8, i8, u16, i16; direct, Option and Variant
    c01_small {
        fixed!(true, bool, boolean, id, Variant::Boolean);
        fixed!(false, bool, boolean, id, Variant::Boolean);
        fixed!(sym::u8(), u8, ubyte, id, Variant::Ubyte);
        fixed!(sym::i8(), i8, byte, id, Variant::Byte);
        fixed!(sym::u16(), u16, ushort, id, Variant::Ushort);
        fixed!(sym::i16(), i16, short, id, Variant::Short);
    }
    // @bound every u32 and i32
    c01_32 {
        let v = sym::u32();
        witness!(v == 0, "zero");
        witness!(v == 255, "largest one octet value");
        witness!(v == 256, "smallest four octet value");
        scalar!(v, u32, uint, id, Variant::Uint);
        let v = sym::i32();
        witness!(v == -129, "below one octet");
        witness!(v == -128, "one octet");
        scalar!(v, i32, int, id, Variant::Int);
    }
    // @bound every u64 and i64
    c01_64 {
        let v = sym::u64();
        witness!(v == 255, "largest one octet value");
        witness!(v == 256, "smallest eight octet value");
        scalar!(v, u64, ulong, id, Variant::Ulong);
        let v = sym::i64();
        witness!(v == 128, "above one octet");
        scalar!(v, i64, long, id, Variant::Long);
    }
    // @bound every bit pattern of f32 and f64; Variant equality is OrderedFloat equality
    c01_float {
        fixed!(f32::from_bits(sym::u32()), f32, float, f32::to_bits, |v| Variant::Float(OrderedFloat(v)));
        fixed!(f64::from_bits(sym::u64()), f64, double, f64::to_bits, |v| Variant::Double(OrderedFloat(v)));
    }
    // @bound every char and every 16 octet uuid
    c01_char_uuid {
        fixed!(sym::char(), char, char, |c| c as u32, Variant::Char);
        let mut b = [0u8; 16];
        sym::fill(&mut b);
        let v = Uuid::from_bytes(b);
        fixed!(v, Uuid, uuid, |u: Uuid| *u.as_bytes(), Variant::Uuid);
    }
    // @bound null
    c01_null {
        let e = enc(&Variant::Null);
        assert!(e.len() == 1 && e[0] == 0x40, "wire form of null");
        let v: Variant = whole(Variant::decode(&e));
        assert!(v == Variant::Null, "null changed");
        let n: Option<u32> = None;
        let e = enc(&n);
        assert!(e.len() == 1 && e[0] == 0x40, "wire form of an absent value");
        let d: Option<u32> = whole(Option::<u32>::decode(&e));
        assert!(d.is_none(), "absent value changed");
    }
    // @bound every spec encoding of bool, uint, int (all payload octets), typed and Variant
    c01_forms_32 {
        form!(u32, 0x43, 0, uint, id, Variant::Uint);
        form!(u32, 0x52, 1, uint, id, Variant::Uint);
        form!(u32, 0x70, 4, uint, id, Variant::Uint);
        form!(i32, 0x54, 1, int, id, Variant::Int);
        form!(i32, 0x71, 4, int, id, Variant::Int);
        form!(bool, 0x41, 0, boolean, id, Variant::Boolean);
        form!(bool, 0x42, 0, boolean, id, Variant::Boolean);
        let b = [0x56, 0];
        assert!(!whole(bool::decode(&b)) && whole(Variant::decode(&b)) == Variant::Boolean(false), "octet boolean");
        let b = [0x56, 1];
        assert!(whole(bool::decode(&b)) && whole(Variant::decode(&b)) == Variant::Boolean(true), "octet boolean");
    }
    // @bound every spec encoding of ulong and long (all payload octets), typed and Variant
    c01_forms_64 {
        form!(u64, 0x44, 0, ulong, id, Variant::Ulong);
        form!(u64, 0x53, 1, ulong, id, Variant::Ulong);
        form!(u64, 0x80, 8, ulong, id, Variant::Ulong);
        form!(i64, 0x55, 1, long, id, Variant::Long);
        form!(i64, 0x81, 8, long, id, Variant::Long);
    }
}
