//! C04: lists, maps, arrays, described values and nestings of them.
use crate::fields::{wide_texts, Field, Key, Mode};
use crate::kinds::*;
use crate::spec::{enc, ok, whole, R};
use crate::sym;
use amqp_codec::protocol::{Fields, StringVariantMap, Timestamp};
use amqp_codec::types::*;
use amqp_codec::{Decode, Encode};
use bytes::Bytes;
use hashbrown::HashMap;
use uuid::Uuid;

/// The one-octet form exactly when size (count octet included) and count fit.
fn header(e: &[u8], code8: u8, count: usize) {
    if e[0] == code8 {
        assert!(e.len() >= 3 && e[1] as usize == e.len() - 2, "one-octet size");
        assert!(e[2] as usize == count, "one-octet count");
    } else {
        assert!(e[0] == code8 + 0x10 && e.len() >= 9, "constructor of the compound");
        let be = |i: usize| (e[i] as usize) << 24 | (e[i + 1] as usize) << 16 | (e[i + 2] as usize) << 8 | e[i + 3] as usize;
        assert!(be(1) == e.len() - 5, "four-octet size");
        assert!(be(5) == count, "four-octet count");
        assert!(e.len() - 8 > 255, "four-octet form of a compound that fits the one-octet form");
    }
}
fn array<T: Item>(v: Vec<T>)
where
    Vec<T>: Encode + Decode,
{
    let mut e = enc(&v).to_vec();
    header(&e, 0xe0, v.len());
    let mut r = R::new(&e);
    let (end, _, code) = r.array();
    assert!(code == T::CODE, "constructor of the array elements");
    for i in &v {
        i.read(&mut r)
    }
    r.at(end);
    r.end();
    let t = sym::u8();
    e.push(t);
    let (rest, d) = ok(<Vec<T>>::decode(&e));
    assert!(rest.len() == 1 && rest[0] == t, "octets after the array");
    same(&v, &d)
}
fn same<T: Item>(v: &[T], d: &[T]) {
    assert!(d.len() == v.len(), "element count of the decoded array");
    let mut i = 0;
    while i < v.len() {
        assert!(v[i].equal(&d[i]), "element of the decoded array");
        i += 1
    }
}
/// `count` elements, the first two and the last with free contents.
fn items<T: Item>(count: usize, n: usize) -> Vec<T> {
    let mut v = Vec::new();
    let fill = T::item(n);
    for i in 0..count {
        v.push(if i < 2 || i + 1 == count { T::item(n) } else { fill.clone() })
    }
    v
}
fn small<T: Item>()
where
    Vec<T>: Encode + Decode,
{
    array(items::<T>(sym::pick(4), 2))
}
/// Contents of 250 to 258 octets, as far as elements of this width allow.
fn edge<T: Item>()
where
    Vec<T>: Encode + Decode,
{
    if T::VARIABLE {
        // one, two or three texts, the total from 249 to 258
        let k = 1 + sym::pick(3);
        let total = 249 + sym::pick(10);
        let mut v = items::<T>(k - 1, 3);
        v.push(T::item(total - (k - 1) * 7 - 4));
        array(v)
    } else {
        let lo = 250 / T::WIDTH;
        array(items::<T>(lo + sym::pick(9 / T::WIDTH + 2), 0))
    }
}
macro_rules! each {
    ($f:ident $k:expr) => {
        match $k {
            0 => $f::<bool>(),
            1 => $f::<u8>(),
            2 => $f::<u16>(),
            3 => $f::<u32>(),
            4 => $f::<u64>(),
            5 => $f::<i8>(),
            6 => $f::<i16>(),
            7 => $f::<i32>(),
            8 => $f::<i64>(),
            9 => $f::<f32>(),
            10 => $f::<f64>(),
            11 => $f::<char>(),
            12 => $f::<Timestamp>(),
            13 => $f::<Uuid>(),
            14 => $f::<Bytes>(),
            15 => $f::<ByteStr>(),
            _ => $f::<Symbol>(),
        }
    };
}
fn value(v: &Variant) {
    let mut e = enc(v).to_vec();
    let mut r = R::new(&e);
    v.check(&mut r);
    r.end();
    let t = sym::u8();
    e.push(t);
    let (rest, d) = ok(Variant::decode(&e));
    assert!(rest.len() == 1 && rest[0] == t, "octets after the value");
    assert!(alike(v, &d), "value changed by encoding and decoding");
}
fn list(v: Vec<Variant>) {
    let l = List(v);
    let e = enc(&l);
    header(&e, 0xc0, l.len());
    let d: List = whole(List::decode(&e));
    assert!(d.len() == l.len(), "element count of the decoded list");
    let v = Variant::List(l);
    assert!(alike(&v, &Variant::List(d)), "list changed by encoding and decoding");
    value(&v)
}
fn map<K, V>(m: HashMap<K, V>)
where
    K: Field + Key + Eq + std::hash::Hash + Encode + Decode,
    V: Field + PartialEq + Encode + Decode,
{
    let mut e = enc(&m).to_vec();
    header(&e, 0xc1, 2 * m.len());
    let mut r = R::new(&e);
    m.check(&mut r);
    r.end();
    let t = sym::u8();
    e.push(t);
    let (rest, d) = ok(<HashMap<K, V>>::decode(&e));
    assert!(rest.len() == 1 && rest[0] == t, "octets after the map");
    assert!(d.len() == m.len(), "entry count of the decoded map");
    for (k, v) in &m {
        assert!(d.get(k).map_or(false, |w| w == v), "entry of the decoded map");
    }
}
/// 0 to 2 entries, the first in every structure.
fn small_map<K, V>()
where
    K: Field + Key + Eq + std::hash::Hash + Encode + Decode,
    V: Field + PartialEq + Encode + Decode,
{
    map(<HashMap<K, V>>::any(Mode::Rich))
}
/// Entries of 250 to 258 octets.
fn edge_map<K, V>(empty: V)
where
    K: Field + Key + Eq + std::hash::Hash + Encode + Decode,
    V: Field + PartialEq + Encode + Decode,
{
    // a second entry of 8 or more octets
    let two = sym::pick(2) == 1;
    let mut m = HashMap::new();
    if two {
        m.insert(K::key(1), empty);
    }
    let base = enc(&m).len() - 3 + 5;
    m.insert(K::key(0), V::any(Mode::Long(250 - base + sym::pick(9))));
    map(m)
}
/// Keys: what is hashed in more than two steps has one free octet.
fn key(k: usize) -> Variant {
    let x = Box::new(Variant::Ubyte(5));
    match k {
        14 => {
            let mut b = [9; 16];
            b[15] = sym::u8();
            Variant::Uuid(Uuid::from_bytes(b))
        }
        15 => Variant::Binary(blob(1)),
        16 => Variant::String(Str::from(string(1))),
        17 => Variant::Symbol(Symbol::from(string(1))),
        20 => Variant::List(List(vec![Variant::Ubyte(sym::u8())])),
        23 => Variant::Described((Descriptor::Ulong(sym::u8() as u64), x)),
        24 => Variant::Described((Descriptor::Symbol(Symbol::from("d")), Box::new(Variant::Byte(sym::i8())))),
        _ => kind(k, 2),
    }
}
fn vec_map(v: VecVariantMap) {
    let e = enc(&v);
    header(&e, 0xc1, 2 * v.len());
    let mut r = R::new(&e);
    let (end, _) = r.map();
    for (k, x) in v.iter() {
        k.check(&mut r);
        x.check(&mut r)
    }
    r.at(end);
    r.end();
    let d: VecVariantMap = whole(VecVariantMap::decode(&e));
    assert!(d.len() == v.len(), "entry count of the decoded map");
    let mut i = 0;
    while i < v.len() {
        assert!(d[i].0.as_bytes() == v[i].0.as_bytes() && alike(&v[i].1, &d[i].1), "entry of the decoded map");
        i += 1
    }
}
/// Wraps a value in one of the compound kinds.
fn wrap(k: usize, v: Variant) -> Variant {
    match k {
        0 => Variant::List(List(vec![v])),
        1 => Variant::List(List(vec![Variant::Ubyte(sym::u8()), v, Variant::Null])),
        2 => map1(Variant::Binary(Bytes::from_static(b"k")), v),
        3 => Variant::Described((Descriptor::Ulong(sym::u64()), Box::new(v))),
        _ => Variant::Described((Descriptor::Symbol(Symbol::from(string(1))), Box::new(v))),
    }
}
fn multiple<T: Item + Encode + Decode>()
where
    Vec<T>: Encode,
    Multiple<T>: Encode + Decode,
{
    let n = sym::pick(4);
    let v = Multiple(items::<T>(n, 2));
    let e = enc(&v);
    if n == 1 {
        assert!(e == enc(&v[0]), "a single element is not encoded bare");
    } else {
        assert!(e == enc(&v.0), "elements are not encoded as an array");
    }
    let d: Multiple<T> = whole(<Multiple<T>>::decode(&e));
    same(&v, &d)
}

/// 128 characters of two octets.
const WIDE: &str = "ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé";

harnesses! {
    // @bound arrays of 0 to 3 elements of each of the 17 scalar element types, free contents (texts of 2 octets), followed by a free octet
    // @opts {"shards":17}
    c04_array {
        each!(small sym::pick(17))
    }
    // @bound arrays of each element type with 249 to 258 octets of elements; first two and last element free
    // @opts {"shards":17}
    c04_array_edge {
        each!(edge sym::pick(17))
    }
    // @bound arrays of 254 to 257 and 300 booleans, octets and 16-bit values
    // @opts {"shards":5}
    c04_array_count {
        let n = [254, 255, 256, 257, 300][sym::pick(5)];
        match sym::pick(3) {
            0 => array(items::<bool>(n, 0)),
            1 => array(items::<i8>(n, 0)),
            _ => array(items::<u16>(n, 0)),
        }
    }
    // @bound arrays of 0 to 2 maps of 0 to 1 entries, or of contents of 250 to 258 octets
    c04_array_map {
        let n = sym::pick(3);
        let mut v: Vec<Fields> = Vec::new();
        for i in 0..n {
            let mut m = HashMap::new();
            if sym::pick(2) == 1 {
                let len = if i == 0 && sym::pick(2) == 1 { 225 + sym::pick(12) } else { 2 };
                m.insert(Symbol::from("k"), Variant::String(Str::from(string(len))));
            }
            v.push(m)
        }
        let e = enc(&v);
        header(&e, 0xe0, n);
        let mut r = R::new(&e);
        let (end, _, code) = r.array();
        assert!(code == 0xd1, "constructor of the array elements");
        for m in &v {
            assert!(r.be32() as usize == enc(m).len() + 1 - if enc(m)[0] == 0xc1 { 0 } else { 6 }, "size of a map in an array");
            assert!(r.be32() as usize == 2 * m.len(), "count of a map in an array");
            for (k, x) in m {
                k.check(&mut r);
                x.check(&mut r)
            }
        }
        r.at(end);
        r.end();
        let d: Vec<Fields> = whole(<Vec<Fields>>::decode(&e));
        assert!(d == v, "array of maps changed by encoding and decoding");
    }
    // @bound lists of one value of each of 26 kinds, free contents, texts of 0 to 2 octets
    // @opts {"shards":26}
    c04_list_kinds {
        let k = sym::pick(KINDS);
        list(vec![kind(k, sym::pick(3))])
    }
    // @bound lists of 2 values of every pair of 26 kinds, free contents, texts of 1 octet
    // @opts {"shards":26}
    c04_list_pairs {
        let k = sym::pick(KINDS);
        let j = sym::pick(KINDS);
        list(vec![kind(k, 1), kind(j, 1)])
    }
    // @bound lists of 0 to 5 values of null, boolean, ubyte, uint and symbol
    // @opts {"shards":6}
    c04_list {
        let n = sym::pick(6);
        let mut v = Vec::new();
        for i in 0..n {
            v.push(kind([0, 1, 17, 2, 4][i], 2))
        }
        list(v)
    }
    // @bound lists of 0 to 2 values before a text that makes the contents 249 to 258 octets
    // @opts {"shards":3}
    c04_list_edge {
        let n = sym::pick(3);
        let total = 249 + sym::pick(10);
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(Variant::Ushort(sym::u16()))
        }
        v.push(Variant::String(Str::from(string(total - 3 * n - 2))));
        list(v)
    }
    // @bound lists of 250 to 258 one-octet values
    c04_list_count {
        let n = 250 + sym::pick(9);
        let mut v = vec![Variant::Null; n];
        v[0] = Variant::Boolean(sym::bool());
        v[n - 1] = Variant::Boolean(sym::bool());
        list(v)
    }
    // @bound maps with dynamic, symbol and string keys of 0 to 2 entries, values of 7 kinds, filters with and without text
    // @opts {"shards":4}
    c04_map {
        match sym::pick(4) {
            0 => small_map::<Variant, Variant>(),
            1 => small_map::<Symbol, Variant>(),
            2 => small_map::<Str, Variant>(),
            _ => small_map::<Symbol, Option<ByteStr>>(),
        }
    }
    // @bound maps of 1 or 2 entries of 250 to 258 octets in all
    // @opts {"shards":4}
    c04_map_edge {
        let x = Variant::Null;
        match sym::pick(4) {
            0 => edge_map::<Variant, Variant>(x),
            1 => edge_map::<Symbol, Variant>(x),
            2 => edge_map::<Str, Variant>(x),
            _ => edge_map::<Symbol, Option<ByteStr>>(None),
        }
    }
    // @bound dynamic maps with one entry: the key of each of 26 kinds (free scalars; one octet of texts, identifiers and compounds free), value an octet; and the value of each kind
    // @opts {"shards":26}
    c04_map_kinds {
        let k = sym::pick(KINDS);
        if sym::pick(2) == 0 {
            value(&map1(key(k), Variant::Ubyte(sym::u8())))
        } else {
            value(&map1(Variant::Ubyte(3), kind(k, 2)))
        }
    }
    // @bound maps of 30 and of 127 to 130 octet keys and null or octet values (counts on both sides of 255)
    // @opts {"shards":5}
    c04_map_count {
        let n = [30, 127, 128, 129, 130][sym::pick(5)];
        let mut m = HashMap::new();
        let x = Variant::Ubyte(sym::u8());
        for i in 0..n {
            m.insert(Variant::Ubyte(i as u8), if i == 7 { x.clone() } else { Variant::Null });
        }
        map(m)
    }
    // @bound application-property maps in insertion order: 0 to 3 entries, duplicate keys included, and 250 to 258 octets
    // @opts {"shards":5}
    c04_vec_map {
        let n = sym::pick(5);
        let mut v = VecVariantMap::default();
        if n == 4 {
            v.push((Str::from("key"), Variant::Ubyte(sym::u8())));
            v.push((Str::from(string(1)), Variant::String(Str::from(string(250 - 12 + sym::pick(9))))));
        } else {
            for i in 0..n {
                v.push((Str::from(string(i)), kind([16, 2, 20][i], 1)))
            }
        }
        vec_map(v)
    }
    // @bound described values: all descriptors of 64 bits or of a symbol of 0 to 2 octets, value of each of 26 kinds
    // @opts {"shards":26}
    c04_described {
        let v = kind(sym::pick(KINDS), 1);
        let d = match sym::pick(4) {
            3 => Descriptor::Ulong(sym::u64()),
            n => Descriptor::Symbol(Symbol::from(string(n))),
        };
        value(&Variant::Described((d, Box::new(v))))
    }
    // @bound nestings of depth 3 and 4 of lists, maps and values described by number or symbol, in every order, around a text
    // @opts {"shards":25}
    c04_nested {
        let a = sym::pick(5);
        let b = sym::pick(5);
        let c = sym::pick(6);
        let v = wrap(a, wrap(b, Variant::String(Str::from(string(2)))));
        value(&if c == 5 { v } else { wrap(c, v) })
    }
    // @bound texts of 2, 3, 100 and 252-257 octets of two-octet characters in arrays, lists, as keys and values of maps, and in described values
    // @opts {"shards":8}
    c04_wide {
        wide_texts();
        const LENGTHS: [usize; 9] = [2, 3, 100, 252, 253, 254, 255, 256, 257];
        let n = LENGTHS[sym::pick(9)];
        let v = Variant::String(Str::from(string(n)));
        let s = Variant::Symbol(Symbol::from(string(n)));
        match sym::pick(8) {
            0 => array(items::<ByteStr>(2, n)),
            1 => array(items::<Symbol>(2, n)),
            2 => list(vec![v, s]),
            3 => value(&map1(Variant::Ubyte(1), v)),
            4 => value(&map1(Variant::String(Str::from_str(&WIDE[..n & !1])), s)),
            5 => value(&Variant::Described((Descriptor::Symbol(Symbol::from(string(n))), Box::new(v)))),
            6 => value(&wrap(0, Variant::List(List(vec![s, v])))),
            _ => {
                let m = VecVariantMap(vec![(Str::from(string(n)), v), (Str::from(string(2)), s)]);
                let e = enc(&m);
                header(&e, 0xc1, 4);
                let d: VecVariantMap = whole(VecVariantMap::decode(&e));
                assert!(d == m, "application-property map changed by encoding and decoding");
            }
        }
    }
    // @bound nestings of depth 2 around a text of 225 to 256 octets: inner and outer size cross the limit one after the other
    // @opts {"shards":5}
    c04_nested_edge {
        let a = sym::pick(5);
        let b = sym::pick(5);
        let n = 225 + sym::pick(32);
        value(&wrap(a, wrap(b, Variant::String(Str::from(string(n))))))
    }
    // @bound multiples of 0 to 3 texts: symbols
    c04_multiple {
        multiple::<Symbol>()
    }
    // @bound optional compounds: absent, or an array, list or map of one entry
    c04_optional {
        match sym::pick(4) {
            0 => {
                let e = enc(&Option::<Vec<u16>>::None);
                assert!(e.len() == 1 && e[0] == 0x40, "absent array");
                assert!(whole(Option::<Vec<u16>>::decode(&e)).is_none(), "absent array");
            }
            1 => {
                let v = vec![sym::u16()];
                let d: Option<Vec<u16>> = whole(Option::<Vec<u16>>::decode(&enc(&Some(v.clone()))));
                assert!(d == Some(v), "optional array");
            }
            2 => {
                let v = List(vec![Variant::Ulong(sym::u64())]);
                let d: Option<List> = whole(Option::<List>::decode(&enc(&Some(v.clone()))));
                assert!(d == Some(v), "optional list");
            }
            _ => {
                let mut v: StringVariantMap = HashMap::new();
                v.insert(Str::from(string(1)), Variant::Int(sym::i32()));
                let d: Option<StringVariantMap> = whole(Option::<StringVariantMap>::decode(&enc(&Some(v.clone()))));
                assert!(d == Some(v), "optional map");
            }
        }
    }
    // @bound 65530 to 65540 octets in lists, arrays and maps
    // @opts {"shards":11}
    c04_large {
        let n = 65530 + sym::pick(11);
        match sym::pick(3) {
            0 => list(vec![Variant::Binary(long_blob(n)), Variant::Ubyte(sym::u8())]),
            1 => array(vec![long_blob(n - 4)]),
            _ => value(&map1(Variant::Ubyte(sym::u8()), Variant::Binary(long_blob(n)))),
        }
    }
    // @bound lists of 3 values of every triple of 26 kinds
    // @opts {"shards":676,"timeout":3000}
    c04_list_triples_t {
        let k = sym::pick(KINDS);
        let j = sym::pick(KINDS);
        let i = sym::pick(KINDS);
        list(vec![kind(k, 1), kind(j, 1), kind(i, 1)])
    }
    // @bound arrays of 4 to 8 elements of each element type, all free
    // @opts {"shards":85}
    c04_array_t {
        fn many<T: Item>() where Vec<T>: Encode + Decode {
            let mut v = Vec::new();
            for _ in 0..4 + sym::pick(5) {
                v.push(T::item(3))
            }
            array(v)
        }
        each!(many sym::pick(17))
    }
    // @bound nestings of depth 5 in every order
    // @opts {"shards":125}
    c04_nested_t {
        let (a, b, c, d) = (sym::pick(5), sym::pick(5), sym::pick(5), sym::pick(5));
        value(&wrap(a, wrap(b, wrap(c, wrap(d, Variant::String(Str::from(string(2))))))))
    }
}
