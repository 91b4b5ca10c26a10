//! C24: values nested to any depth are decoded or rejected with bounded
//! recursion, and one decoding does not affect the next.
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, InMessage, OutMessage};
use bytes::BytesMut;
use tokio_codec::Decoder;

/// Every depth up to this one is accepted.
const SHALLOW: usize = 100;
/// This one is not.
const DEEP: usize = 2000;

/// Forms of one level: what stands before and behind the value inside it, and
/// the element count; no count for a described value.
const FORMS: usize = 8;
fn form(k: usize) -> (u8, u8, &'static [u8], &'static [u8]) {
    match k {
        0 => (0xc0, 1, &[], &[]),
        1 => (0xd0, 1, &[], &[]),
        2 => (0xd1, 2, &[0x43], &[]),
        3 => (0xd1, 2, &[], &[0x40]),
        4 => (0, 0, &[0x53, 7], &[]),
        5 => (0, 0, &[0xa3, 1, b'x'], &[]),
        6 => (0xd0, 3, &[0x40], &[0x41]),
        _ => (0xd0, 2, &[0xc0, 4, 1, 0xc0, 1, 0], &[]),
    }
}
/// `n` levels of the forms `ks` in turn around `leaf`.
fn nest(n: usize, ks: &[usize], leaf: &[u8]) -> Vec<u8> {
    // length of the value inside each level
    let mut inner = vec![0; n + 1];
    inner[n] = leaf.len();
    for i in (0..n).rev() {
        let (c, _, a, b) = form(ks[i % ks.len()]);
        let len = inner[i + 1] + a.len() + b.len();
        inner[i] = len + if c == 0 { 1 } else if c == 0xc0 && len < 255 { 3 } else { 9 };
    }
    let mut w = Vec::with_capacity(inner[0]);
    for i in 0..n {
        let (c, count, a, b) = form(ks[i % ks.len()]);
        let len = inner[i + 1] + a.len() + b.len();
        header(&mut w, c, count, len);
        w.extend_from_slice(a);
    }
    w.extend_from_slice(leaf);
    for i in (0..n).rev() {
        w.extend_from_slice(form(ks[i % ks.len()]).3)
    }
    w
}
fn header(w: &mut Vec<u8>, c: u8, count: u8, len: usize) {
    if c == 0 {
        w.push(0)
    } else if c & 0x10 == 0 && len < 255 {
        w.extend_from_slice(&[c, len as u8 + 1, count])
    } else {
        let s = len + 4;
        w.extend_from_slice(&[c | 0x10, (s >> 24) as u8, (s >> 16) as u8, (s >> 8) as u8, s as u8, 0, 0, 0, count])
    }
}
/// The value inside `n` levels.
fn leaf(v: &Variant, n: usize, ks: &[usize]) -> Option<u32> {
    let mut v = v;
    for i in 0..n {
        v = match (ks[i % ks.len()], v) {
            (0, Variant::List(l)) | (1, Variant::List(l)) if l.len() == 1 => l.iter().next()?,
            (2, Variant::Map(m)) if m.map.len() == 1 => m.map.values().next()?,
            (3, Variant::Map(m)) if m.map.len() == 1 => m.map.keys().next()?,
            (4, Variant::Described((Descriptor::Ulong(7), b))) => b,
            (5, Variant::Described((Descriptor::Symbol(s), b))) if s.as_str() == "x" => b,
            (6, Variant::List(l)) if l.len() == 3 && l.iter().next() == Some(&Variant::Null) && l.iter().last() == Some(&Variant::Boolean(true)) => l.iter().nth(1)?,
            (7, Variant::List(l)) if l.len() == 2 => l.iter().nth(1)?,
            _ => return None,
        }
    }
    match v {
        Variant::Uint(x) => Some(*x),
        _ => None,
    }
}
fn uint(x: u32) -> [u8; 5] {
    [0x70, (x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8]
}
fn accepted(n: usize, ks: &[usize]) {
    let x = sym::u32();
    let w = nest(n, ks, &uint(x));
    match Variant::decode(&w) {
        Ok((rest, v)) => {
            assert!(rest.is_empty(), "octets are left over");
            assert!(leaf(&v, n, ks) == Some(x), "the nested value is another");
            // not the concern here
            std::mem::forget(v)
        }
        Err(_) => panic!("a value nested to a moderate depth is rejected"),
    }
}
fn refused<T: Decode>(w: &[u8]) {
    assert!(T::decode(w).is_err(), "a deeply nested value is accepted")
}
/// Decoding of one more value, as chosen.
fn event(k: usize, form: usize) {
    match k {
        0 => refused::<Variant>(&nest(DEEP, &[form], &[0x40])),
        1 => accepted(SHALLOW, &[form]),
        // broken off, or an unknown constructor, inside half of the levels
        2 => {
            let w = nest(SHALLOW / 2, &[form, 0], &uint(sym::u32()));
            let cut = w.len() - 3;
            assert!(Variant::decode(&w[..cut]).is_err(), "a value broken off is accepted")
        }
        _ => {
            let c = sym::u8();
            sym::assume(c != 0 && c < 0x40);
            assert!(Variant::decode(&nest(SHALLOW / 2, &[0, form], &[c])).is_err(), "an unknown constructor is accepted")
        }
    }
}
/// A map of one entry with the key `key`, the value nested deeply.
fn entry(key: &[u8], v: &[u8]) -> Vec<u8> {
    let mut w = vec![];
    header(&mut w, 0xd1, 2, key.len() + v.len());
    w.extend_from_slice(key);
    w.extend_from_slice(v);
    w
}
fn described(d: &[u8], v: &[u8]) -> Vec<u8> {
    let mut w = vec![0, 0x53];
    w.extend_from_slice(d);
    w.extend_from_slice(v);
    w
}
fn fields(before: &[u8], count: u8, v: &[u8]) -> Vec<u8> {
    let mut w = vec![];
    header(&mut w, 0xd0, count, before.len() + v.len());
    w.extend_from_slice(before);
    w.extend_from_slice(v);
    w
}

/// The value inside a type that holds dynamic values.
const PLACES: usize = 15;
fn place(k: usize, v: &[u8], deep: bool) {
    let (sym1, str1) = (&[0xa3, 1, b'k'][..], &[0xa1, 1, b'k'][..]);
    let w = match k {
        0 => fields(&[], 1, v),
        1 | 9 => entry(sym1, v),
        2 | 4 => entry(str1, v),
        3 => entry(&[0x43], v),
        5 => {
            let m = entry(sym1, v);
            let mut w = vec![];
            header(&mut w, 0xf0, 1, m.len());
            w.extend_from_slice(&m);
            w
        }
        6 => described(&[0x1d], &fields(&[0xa3, 1, b'e', 0x40], 3, &entry(sym1, v))),
        7 => described(&[0x28], &fields(&[0x40; 5], 6, &entry(sym1, v))),
        8 => {
            let open = described(&[0x10], &fields(&[0xa1, 1, b'c', 0x40, 0x40, 0x40, 0x40, 0x40, 0x40, 0x40, 0x40], 10, &entry(sym1, v)));
            let n = open.len() + 8;
            let mut w = vec![(n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8, 2, 0, 0, 0];
            w.extend_from_slice(&open);
            w
        }
        10 => described(&[0x71], &entry(sym1, v)),
        11 => described(&[0x74], &entry(str1, v)),
        12 => described(&[0x76], &fields(&[], 1, v)),
        13 => described(&[0x77], v),
        _ => described(&[0x78], &entry(sym1, v)),
    };
    match k {
        0 => outcome::<List>(&w, deep),
        1 => outcome::<Fields>(&w, deep),
        2 => outcome::<StringVariantMap>(&w, deep),
        3 => outcome::<Map>(&w, deep),
        4 => outcome::<VecVariantMap>(&w, deep),
        5 => outcome::<Vec<Fields>>(&w, deep),
        6 => outcome::<Error>(&w, deep),
        7 => outcome::<Source>(&w, deep),
        8 => {
            let mut buf = BytesMut::from(&w[..]);
            let r = AmqpCodec::<AmqpFrame>::new().decode(&mut buf);
            verdict(r.is_ok(), deep);
            assert!(deep || r.map(|f| f.is_some()).unwrap_or(false), "a frame is missing");
        }
        9 => outcome::<Option<Fields>>(&w, deep),
        _ if sym::pick(2) == 0 => outcome::<InMessage>(&w, deep),
        _ => outcome::<OutMessage>(&w, deep),
    }
}
fn outcome<T: Decode>(w: &[u8], deep: bool) {
    verdict(T::decode(w).is_ok(), deep)
}
fn verdict(ok: bool, deep: bool) {
    assert!(!(ok && deep), "a deeply nested value is accepted");
    assert!(ok || deep, "a value nested to a moderate depth is rejected");
}

harnesses! {
    // @bound 2000 levels in any alternation of two of 8 forms (lists of either width, maps nested by value and by key, described by number and by symbol, lists with further elements) around 2 free octets; rejected as a dynamic value, no call deeper than 1000
    // @opts {"shards":8}
    c24_deep {
        let (a, b) = (sym::pick(FORMS), sym::pick(FORMS));
        refused::<Variant>(&nest(DEEP, &[a, b], &sym::octets(2)))
    }
    // @bound as c24_deep, 1001, 4000 and 16000 levels of one form
    // @opts {"shards":8}
    c24_deeper {
        let a = sym::pick(FORMS);
        let n = [1001, 4000, 16000][sym::pick(3)];
        refused::<Variant>(&nest(n, &[a], &sym::octets(1)))
    }
    // @bound 50 levels (accepted) and 2000 levels (rejected) of each of 8 forms inside every type that holds dynamic values: lists, four kinds of maps, error info, node properties, connection properties in a frame, message sections of both message types
    // @opts {"shards":8}
    c24_places {
        let deep = sym::pick(2) == 0;
        let v = nest(if deep { DEEP } else { SHALLOW / 2 }, &[sym::pick(FORMS)], &[0x43]);
        place(sym::pick(PLACES), &v, deep)
    }
    // @bound 1, 2, 10, 50 and 100 levels in any alternation of two of 8 forms around any 32-bit value: accepted, with that value inside
    // @opts {"shards":8}
    c24_accepted {
        let (a, b) = (sym::pick(FORMS), sym::pick(FORMS));
        accepted([1, 2, 10, 50, SHALLOW][sym::pick(5)], &[a, b])
    }
    // @bound any three decodings (too deep, 100 levels, broken off or unknown constructor within 50 levels), each of 8 forms, then 100 levels: accepted
    // @opts {"shards":8}
    c24_sequence {
        let form = sym::pick(FORMS);
        for _ in 0..sym::pick(4) {
            event(sym::pick(4), form)
        }
        accepted(SHALLOW, &[form])
    }
    // @bound 200 decodings of one kind (too deep, 100 levels, broken off or unknown constructor), then 100 levels of lists: accepted
    // @opts {"shards":4}
    c24_repeated {
        let w = match sym::pick(4) {
            0 => nest(150, &[4], &[0x40]),
            1 => nest(SHALLOW, &[4], &[0x40]),
            2 => nest(2, &[0, 4], &[0x70]),
            _ => nest(2, &[2, 4], &[0x3f]),
        };
        for _ in 0..200 {
            drop(Variant::decode(&w))
        }
        accepted(SHALLOW, &[1])
    }
}
