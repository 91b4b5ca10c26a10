//! C20: equality, order and hash of text and dynamic values are consistent.
use crate::sym;
use crate::texts::*;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use bytes::Bytes;
use hashbrown::{HashMap, HashSet};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Records what is hashed: values with equal records have equal hashes,
/// whatever the hash function.
struct Record(Vec<u8>);
impl Hasher for Record {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn record<T: Hash + ?Sized>(v: &T) -> Vec<u8> {
    let mut r = Record(Vec::new());
    v.hash(&mut r);
    r.0
}
const WAYS: usize = 4;
/// Octets in lexicographic order, the shorter text first.
fn order(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] < b[i] {
            return Ordering::Less;
        }
        if a[i] > b[i] {
            return Ordering::Greater;
        }
        i += 1;
    }
    if a.len() < b.len() {
        Ordering::Less
    } else if a.len() > b.len() {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}
/// Two texts of up to `n` octets; ASCII, or a character of any width.
fn texts(n: usize) -> (Vec<u8>, Vec<u8>) {
    (one_text(n), one_text(n))
}
fn wide() -> Vec<u8> {
    let mut b = [0; 4];
    sym::char().encode_utf8(&mut b).as_bytes().to_vec()
}
fn str_pair(x: &[u8], y: &[u8]) {
    let (a, b) = (stored(x, sym::pick(WAYS)), stored(y, sym::pick(WAYS)));
    let o = order(x, y);
    assert!(a.cmp(&b) == o, "order of texts");
    assert!(b.cmp(&a) == o.reverse(), "order of texts");
    assert!(a.partial_cmp(&b) == Some(o), "partial order of texts");
    assert!((a < b) == (o == Ordering::Less) && (a <= b) == (o != Ordering::Greater), "order of texts");
    assert!((a == b) == (o == Ordering::Equal), "equality of texts");
    assert!((a != b) == (o != Ordering::Equal), "equality of texts");
    assert!((b == a) == (o == Ordering::Equal), "equality of texts");
    assert!((a == *leak(y)) == (o == Ordering::Equal), "equality with a borrowed text");
    // the same as the text it holds
    let s: &str = a.borrow();
    assert!(s.as_bytes() == x && a.as_bytes() == x && a.as_str().as_bytes() == x && a.len() == x.len(), "contents of a text");
    assert!(record(&a) == record(leak(x)), "hash of a text differs from that of the borrowed text");
    assert!(a == a.clone() && record(&a) == record(&a.clone()), "copy of a text");
    witness!(o == Ordering::Equal, "equal texts");
    witness!(o == Ordering::Less, "smaller text");
}
fn symbol_pair(x: &[u8], y: &[u8]) {
    let (a, b) = (Symbol(stored(x, sym::pick(WAYS))), Symbol(stored(y, sym::pick(WAYS))));
    let e = order(x, y) == Ordering::Equal;
    assert!((a == b) == e && (b == a) == e && (a != b) == !e, "equality of symbols");
    assert!((a == *leak(y)) == e, "equality with a borrowed text");
    let s: &str = a.borrow();
    assert!(s.as_bytes() == x && a.as_bytes() == x && a.as_str().as_bytes() == x && a.len() == x.len(), "contents of a symbol");
    assert!(record(&a) == record(leak(x)), "hash of a symbol differs from that of the borrowed text");
    assert!(a == a.clone() && record(&a) == record(&a.clone()), "copy of a symbol");
    let (c, d) = (StaticSymbol(leak(x)), StaticSymbol(leak(y)));
    assert!((c == d) == e && (d == c) == e, "equality of static symbols");
    assert!(!e || record(&c) == record(&d), "equal static symbols hash differently");
    witness!(e, "equal symbols");
    witness!(!e, "different symbols");
}

/// Equality of dynamic values as this property understands it: kind and
/// contents, all NaN alike.
fn equal(a: &Variant, b: &Variant) -> bool {
    use Variant::*;
    match (a, b) {
        (Null, Null) => true,
        (Boolean(x), Boolean(y)) => x == y,
        (Ubyte(x), Ubyte(y)) => x == y,
        (Ushort(x), Ushort(y)) => x == y,
        (Uint(x), Uint(y)) => x == y,
        (Ulong(x), Ulong(y)) => x == y,
        (Byte(x), Byte(y)) => x == y,
        (Short(x), Short(y)) => x == y,
        (Int(x), Int(y)) => x == y,
        (Long(x), Long(y)) => x == y,
        (Float(x), Float(y)) => {
            let (x, y) = (x.to_bits(), y.to_bits());
            let nan = |v: u32| v & 0x7fff_ffff > 0x7f80_0000;
            if nan(x) || nan(y) { nan(x) && nan(y) } else { x == y || (x | y) << 1 == 0 }
        }
        (Double(x), Double(y)) => {
            let (x, y) = (x.to_bits(), y.to_bits());
            let nan = |v: u64| v << 1 > 0x7ff0_0000_0000_0000 << 1;
            if nan(x) || nan(y) { nan(x) && nan(y) } else { x == y || (x | y) << 1 == 0 }
        }
        (Char(x), Char(y)) => x == y,
        (Timestamp(x), Timestamp(y)) => x.timestamp() == y.timestamp() && x.timestamp_subsec_nanos() == y.timestamp_subsec_nanos(),
        (Uuid(x), Uuid(y)) => x.as_bytes() == y.as_bytes(),
        (Binary(x), Binary(y)) => x[..] == y[..],
        (String(x), String(y)) => x.as_bytes() == y.as_bytes(),
        (Symbol(x), Symbol(y)) => x.as_bytes() == y.as_bytes(),
        (StaticSymbol(x), StaticSymbol(y)) => x.0.as_bytes() == y.0.as_bytes(),
        (List(x), List(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| equal(a, b)),
        (Map(x), Map(y)) => {
            x.map.len() == y.map.len() && x.map.iter().all(|(k, v)| y.map.iter().any(|(l, u)| equal(k, l) && equal(v, u)))
        }
        (Described((d, x)), Described((e, y))) => {
            (match (d, e) {
                (Descriptor::Ulong(a), Descriptor::Ulong(b)) => a == b,
                (Descriptor::Symbol(a), Descriptor::Symbol(b)) => a.as_bytes() == b.as_bytes(),
                _ => false,
            }) && equal(x, y)
        }
        _ => false,
    }
}
fn variant_pair(a: Variant, b: Variant) {
    let e = equal(&a, &b);
    assert!((a == b) == e, "equality of dynamic values");
    assert!((b == a) == e, "equality of dynamic values is not symmetric");
    assert!((a != b) == !e, "inequality of dynamic values");
    assert!(!e || record(&a) == record(&b), "equal dynamic values hash differently");
    witness!(e, "equal values");
    witness!(!e, "different values");
}
fn reflexive(a: Variant) {
    let b = a.clone();
    assert!(a == a && a == b && b == a, "dynamic value differs from itself");
    assert!(record(&a) == record(&b), "copy of a dynamic value hashes differently");
}

harnesses! {
    // @bound pairs of texts of 0-3 ASCII octets each, each stored in one of 4 ways
    // @opts {"shards":4}
    c20_text {
        let (x, y) = texts(3);
        str_pair(&x, &y)
    }
    // @bound pairs of any one character, and of such a character and any two ASCII octets
    // @opts {"shards":2}
    c20_text_wide {
        let x = wide();
        let y = if sym::pick(2) == 0 { wide() } else { sym::text(2).into_bytes() };
        str_pair(&x, &y)
    }
    // @bound pairs of texts of equal length, 7-17 octets, one octet of each free (anywhere)
    c20_text_long {
        let n = 7 + sym::pick(11);
        let (mut x, mut y) = (vec![b'm'; n], vec![b'm'; n]);
        let i = sym::pick(n);
        x[i] = sym::ascii();
        let j = [i, n - 1][sym::pick(2)];
        y[j] = sym::ascii();
        str_pair(&x, &y)
    }
    // @bound pairs of symbols of 0-3 ASCII octets each, each stored in one of 4 ways
    // @opts {"shards":4}
    c20_symbol {
        let (x, y) = texts(3);
        symbol_pair(&x, &y)
    }
    // @bound pairs of symbols of any one character
    c20_symbol_wide {
        let x = wide();
        let y = wide();
        symbol_pair(&x, &y)
    }
    // @bound maps with a text or symbol of 0-3 octets as the key, stored in any way, looked up by a text borrowed or stored in any way; one octet of one of the texts is free
    // @opts {"shards":4}
    c20_map_key {
        let n = sym::pick(4);
        let key = |n: usize, free: bool| {
            let mut b = vec![b'k'; n];
            if n > 0 && free {
                b[n - 1] = sym::ascii()
            }
            b
        };
        let free = sym::pick(2) == 0;
        let x = key(n, free);
        let y = key([n, 2][sym::pick(2)], !free);
        let same = x == y;
        let v = sym::u16();
        let stored_value = Variant::Ushort(v);
        let (s, t) = (stored(&x, sym::pick(2)), stored(&y, sym::pick(2)));
        if sym::pick(2) == 0 {
            let mut m: StringVariantMap = HashMap::new();
            m.insert(s, Variant::Ushort(v));
            let got = if sym::pick(2) == 0 { m.get(&t) } else { m.get(leak(&y)) };
            assert!(got == if same { Some(&stored_value) } else { None }, "value stored under a text");
            m.insert(t, Variant::Null);
            assert!(m.len() == if same { 1 } else { 2 }, "texts as keys")
        } else {
            let mut m: Fields = HashMap::new();
            m.insert(Symbol(s), Variant::Ushort(v));
            let t = Symbol(t);
            let got = if sym::pick(2) == 0 { m.get(&t) } else { m.get(leak(&y)) };
            assert!(got == if same { Some(&stored_value) } else { None }, "value stored under a symbol");
            m.insert(t, Variant::Null);
            assert!(m.len() == if same { 1 } else { 2 }, "symbols as keys")
        }
        witness!(same, "found");
        witness!(!same, "not found");
    }
    // @bound sets of two dynamic values of 7 kinds, an octet of one of them free
    c20_set {
        let one = |free: bool| if free { draw(sym::pick(7)) } else { sym::plain(|| draw(sym::pick(7))) };
        fn draw(k: usize) -> Variant { match k {
            0 => Variant::Null,
            1 => Variant::Ubyte(sym::u8()),
            2 => Variant::Byte(sym::i8()),
            3 => Variant::String(stored(&[b'a', sym::ascii()], sym::pick(2))),
            4 => Variant::Symbol(Symbol(stored(&[sym::ascii()], sym::pick(2)))),
            5 => Variant::List(List(vec![Variant::Ubyte(sym::u8())])),
            _ => Variant::Binary(Bytes::from(vec![sym::u8()])),
        } }
        let free = sym::pick(2) == 0;
        let a = one(free);
        let b = one(!free);
        let e = equal(&a, &b);
        let mut s = HashSet::new();
        s.insert(a.clone());
        assert!(s.contains(&a) && s.contains(&b) == e, "set of dynamic values");
        s.insert(b);
        assert!(s.len() == if e { 1 } else { 2 }, "set of dynamic values");
        witness!(e, "found");
        witness!(!e, "not found");
    }
    // @bound dynamic values of every kind against a copy; lists, maps and described values of up to 2 values of 3 kinds
    // @opts {"shards":2}
    c20_variant_self {
        reflexive(value(sym::pick(KINDS), 1))
    }
    // @bound dynamic values two levels deep against a copy
    // @opts {"shards":2}
    c20_variant_self_deep {
        reflexive(value(19 + sym::pick(5), 2))
    }
    // @bound pairs of dynamic values of the same kind, all contents free (texts and binaries of 0-2 octets, lists and maps of 0-2 values)
    // @opts {"shards":4}
    c20_variant {
        let k = sym::pick(KINDS);
        let a = value(k, 0);
        let b = value(k, 0);
        variant_pair(a, b)
    }
    // @bound pairs of dynamic values of different kinds, all contents free
    // @opts {"shards":4}
    c20_variant_kinds {
        let k = sym::pick(KINDS);
        let l = sym::pick(KINDS);
        sym::assume(k != l);
        variant_pair(value(k, 0), value(l, 0));
        sym::reach("equal values"); // maps count as two kinds above
    }
    // @bound pairs of lists, maps and described values whose contents are of 3 kinds (a float among them)
    // @opts {"shards":8,"weight":2}
    c20_variant_nested {
        let k = 19 + sym::pick(5);
        let a = value(k, 1);
        let b = value(k, 1);
        variant_pair(a, b)
    }
    // @bound triples of floats and doubles: equality is transitive
    c20_float_triple {
        let d = sym::pick(2) == 0;
        let f = || if d { Variant::Double(f64::from_bits(sym::u64()).into()) } else { Variant::Float(f32::from_bits(sym::u32()).into()) };
        let (a, b, c) = (f(), f(), f());
        assert!(!(a == b && b == c) || a == c, "equality of floats is not transitive");
    }
    // @bound dynamic values against texts of 0-2 octets
    // @opts {"shards":2}
    c20_variant_text {
        let v = value(sym::pick(18), 0);
        let t = one_text(2);
        let s = leak(&t);
        let e = match &v {
            Variant::String(x) => x.as_bytes() == s.as_bytes(),
            Variant::Symbol(x) => x.as_bytes() == s.as_bytes(),
            _ => false,
        };
        assert!((v == *s) == e, "dynamic value against a text");
        witness!(e, "equal");
        witness!(!e, "different");
    }
}
