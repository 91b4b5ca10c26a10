//! C08: a compound takes the octets its declared size covers, no more and no
//! less, and what it contains fits into them.
use crate::fields::*;
use crate::shapes::*;
use crate::spec::ok;
use crate::sym;
use crate::{each_composite, each_compound};
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{Decode, InMessage};
use bytes::Bytes;

fn be(w: &[u8], n: usize) -> Option<usize> {
    if w.len() < n {
        return None;
    }
    let mut v = 0;
    for b in &w[..n] {
        v = v << 8 | *b as usize
    }
    Some(v)
}
/// Octets of a value after its constructor `c`, by the constructor table of
/// AMQP 1.0 (part 1, 1.2).
fn width(c: u8, w: &[u8]) -> Option<usize> {
    let n = match c >> 4 {
        4 => 0,
        5 => 1,
        6 => 2,
        7 => 4,
        8 => 8,
        9 => 16,
        0xa | 0xc | 0xe => 1 + be(w, 1)?,
        0xb | 0xd | 0xf => 4 + be(w, 4)?,
        _ => return None,
    };
    if n <= w.len() {
        Some(n)
    } else {
        None
    }
}
/// Octets of a value with constructor; contents of lists and maps must fit.
fn value(w: &[u8]) -> Option<usize> {
    let c = *w.get(0)?;
    if c == 0 {
        let d = 1 + value(&w[1..])?;
        return Some(d + limited(&w[d..], fields_of(&w[1..d]))?);
    }
    limited(w, usize::max_value())
}
/// Fields of the composite with this descriptor; more are not looked at.
fn fields_of(d: &[u8]) -> usize {
    if d[0] != 0x53 {
        return usize::max_value();
    }
    match d[1] {
        0x1d => Error::N,
        0x23 => Received::N,
        0x24 | 0x26 => 0,
        0x25 => Rejected::N,
        0x27 => Modified::N,
        0x28 => Source::N,
        0x29 => Target::N,
        _ => usize::max_value(),
    }
}
fn limited(w: &[u8], limit: usize) -> Option<usize> {
    let c = *w.get(0)?;
    let n = width(c, &w[1..])?;
    if c >= 0xc0 && c < 0xe0 {
        let k = if c < 0xd0 { 1 } else { 4 };
        let mut body = &w[1 + k..1 + n];
        let mut count = be(body, k)?;
        // an odd count of a map: the last key has no value
        if c & 1 == 1 {
            count -= count % 2
        }
        body = &body[k..];
        fits(body, count.min(limit))?;
    }
    Some(1 + n)
}
/// `count` values fit into `w`.
fn fits(w: &[u8], count: usize) -> Option<usize> {
    let mut p = 0;
    for _ in 0..count {
        p += value(&w[p..])?
    }
    Some(p)
}
/// Size, position of the body and element count of a compound header.
fn header(w: &[u8]) -> Option<(usize, usize, usize)> {
    let k = match w[0] >> 4 {
        0xc | 0xe => 1,
        0xd | 0xf => 4,
        _ => return None,
    };
    Some((1 + k + be(&w[1..], k)?, 1 + 2 * k, be(&w[1 + k..], k)?))
}
/// An accepted compound covers what it declares, and its contents fit.
fn covers(w: &[u8], rest: usize, limit: usize) {
    if let Some((end, body, count)) = header(w) {
        witness!("a compound was accepted");
        assert!(end <= w.len() && w.len() - end == rest, "consumed octets differ from the declared size");
        assert!(body <= end, "declared size is too small for the header");
        let held = &w[body..end];
        if w[0] >= 0xe0 {
            // elements of an array share their constructor
            assert!(!held.is_empty(), "declared size is too small for the contents");
            let mut p = 1;
            for _ in 0..count {
                match width(held[0], &held[p..]) {
                    // no octets left, none needed
                    Some(0) => break,
                    Some(n) => p += n,
                    None => panic!("declared size is too small for the contents"),
                }
            }
        } else {
            let count = if w[0] & 1 == 1 { count - count % 2 } else { count.min(limit) };
            assert!(fits(held, count).is_some(), "declared size is too small for the contents");
        }
    }
}
/// ... and the value depends on nothing beyond.
fn inside<T: Decode>(w: &[u8], n: usize, v: &T, same: fn(&T, &T) -> bool) {
    let mut f = w[..n].to_vec();
    f.push(sym::u8());
    let (rest, x) = ok(T::decode(&f));
    assert!(rest.len() == 1, "consumed octets differ from the declared size");
    assert!(same(&x, v), "value depends on octets outside the declared size");
}
fn compound<T: Decode + Same>(w: &[u8]) {
    // elements of no width are left to C09
    if w[0] >= 0xe0 {
        let at = if w[0] < 0xf0 { 3 } else { 9 };
        sym::assume(w.len() <= at || w[at] >> 4 != 4)
    }
    if let Ok((rest, v)) = T::decode(w) {
        covers(w, rest.len(), w.len());
        inside(w, w.len() - rest.len(), &v, |a, b| a.same(b))
    }
}
fn descriptor_len<T: Composite>() -> usize {
    let mut w = Vec::new();
    descriptor::<T>(&mut w, false);
    w.len()
}
fn composite<T: Composite>(w: &[u8]) {
    if let Ok((rest, v)) = T::decode(w) {
        covers(&w[descriptor_len::<T>()..], rest.len(), T::N);
        inside(w, w.len() - rest.len(), &v, |a, b| a == b)
    }
}
/// A list of `n` free octets, of either width, with free size and count.
fn short<T: Composite>(n: usize) {
    if T::CODE == Transfer::CODE {
        return transfer(short_list::<Transfer>(n));
    }
    composite::<T>(&short_list::<T>(n))
}
fn short_list<T: Composite>(n: usize) -> Vec<u8> {
    let mut w = Vec::new();
    descriptor::<T>(&mut w, false);
    let wide = sym::pick(2) == 1;
    w.push(if wide { 0xd0 } else { 0xc0 });
    w.extend_from_slice(&sym::octets(n + if wide { 8 } else { 2 }));
    w
}
fn short1<T: Composite>() {
    short::<T>(1)
}
fn short3<T: Composite>() {
    short::<T>(3)
}
/// The payload of a transfer is what lies beyond its list.
fn transfer(w: Vec<u8>) {
    if let Ok((rest, v)) = Transfer::decode(&w) {
        let n = v.body.as_ref().map_or(0, |b| b.len());
        assert!(rest.is_empty(), "octets of the payload left over");
        covers(&w[descriptor_len::<Transfer>()..], n, Transfer::N);
    }
}
/// All fields present; size and count of the list are free, or those of any
/// one part.
fn resized<T: Composite>() {
    let mut w = Vec::new();
    sym::plain(|| T::draw(999, Mode::Poor, Mode::Poor)).write(&mut w, false);
    let d = descriptor_len::<T>();
    sym::assume(w[d] != 0x45);
    let k = if w[d] == 0xc0 { 2 } else { 8 };
    match sym::pick(3) {
        0 => w[d + k / 2] = sym::u8(),
        1 => w[d + k] = sym::u8(),
        _ => {
            for i in 0..k {
                w[d + 1 + i] = sym::u8()
            }
        }
    }
    w.extend_from_slice(&[1, 2, 3]);
    if T::CODE == Transfer::CODE {
        return transfer(w);
    }
    composite::<T>(&w)
}
/// One octet anywhere replaced: sizes of nested parts among them.
fn damaged<T: Composite>() {
    let mut w = Vec::new();
    sym::plain(one_free::<T>).write(&mut w, false);
    let k = sym::pick(w.len());
    sym::assume(k >= descriptor_len::<T>());
    w[k] = sym::u8();
    w.push(0);
    if T::CODE == Transfer::CODE {
        return transfer(w);
    }
    composite::<T>(&w)
}
/// A list in a list (a map in a map, ...), sizes and counts of both free.
fn nested(k: usize) -> Vec<u8> {
    let c = [0xc0, 0xc1, 0xc0, 0xc1][k];
    let i = [0xc0, 0xc1, 0xc1, 0xc0][k];
    let mut w = vec![c, sym::u8(), sym::u8()];
    if c == 0xc1 {
        w.push(0x40)
    }
    w.extend_from_slice(&[i, sym::u8(), sym::u8(), 0x52, 7, 0x50, 8, 0x41]);
    w
}

harnesses! {
    // @bound a list, map or array header of either width with free size and count, 0 to 3 free octets (12 types)
    // @opts {"shards":12}
    c08_compound {
        let k = sym::pick(COMPOUNDS);
        each_compound!(k, compound, &headed(k, sym::pick(4)))
    }
    // @bound the same with 4 and 5 free octets
    // @opts {"shards":12}
    c08_compound_t {
        let k = sym::pick(COMPOUNDS);
        each_compound!(k, compound, &headed(k, 4 + sym::pick(2)))
    }
    // @bound arrays of octets, shorts, binary and symbols of 8-bit form with free size and count, 4 free octets
    // @opts {"shards":4}
    c08_array {
        let mut w = vec![0xe0];
        w.extend_from_slice(&sym::octets(2));
        match sym::pick(4) {
            0 => { w.push(0x50); w.extend_from_slice(&sym::octets(4)); compound::<Vec<u8>>(&w) }
            1 => { w.push(0x61); w.extend_from_slice(&sym::octets(4)); compound::<Vec<i16>>(&w) }
            2 => { w.push(0xa0); w.extend_from_slice(&sym::octets(4)); compound::<Vec<Bytes>>(&w) }
            _ => { w.push(0xa3); w.extend_from_slice(&[1, sym::ascii(), sym::u8(), sym::ascii()]); compound::<Vec<Symbol>>(&w) }
        }
    }
    // @bound a list or map in a list or map, sizes and counts of both free
    // @opts {"shards":4}
    c08_nested {
        let k = sym::pick(4);
        compound::<Variant>(&nested(k))
    }
    // @bound each composite type: a list of either width with free size and count, one free octet
    // @opts {"shards":24}
    c08_composite {
        each_composite!(sym::pick(24), short1)
    }
    // @bound each composite type: a list of either width with free size and count, three free octets
    // @opts {"shards":24}
    c08_composite_t {
        each_composite!(sym::pick(24), short3)
    }
    // @bound each composite type with all fields, the size, the count, or both of its list free, three octets after it
    // @opts {"shards":24}
    c08_resized {
        each_composite!(sym::pick(24), resized)
    }
    // @bound each composite type with each field in every structure, any one octet replaced by any other
    // @opts {"shards":24}
    c08_damaged_t {
        each_composite!(sym::pick(24), damaged)
    }
    // @bound a message of header and value with the size and count of the header's list free: the value's section starts where the header's size ends
    c08_message {
        let mut w = vec![0, 0x53, 0x70, 0xc0, sym::u8(), sym::u8(), 0x41, 0x50, sym::u8()];
        w.extend_from_slice(&[0, 0x53, 0x77, 0x50, 9]);
        if let Ok((rest, m)) = InMessage::decode(&w) {
            assert!(rest.is_empty(), "octets of the message left over");
            let size = w[4] as usize;
            assert!(size >= 1, "declared size is too small for the header");
            assert!(5 + size <= w.len(), "declared size beyond the message");
            if size == 4 {
                witness!("a message was accepted");
                assert!(m.value() == Some(&Variant::Ubyte(9)), "section after the list was not read");
                if let Some(h) = m.header() {
                    assert!(h.durable == (w[5] > 0), "field of the list");
                    assert!(h.priority == if w[5] > 1 { w[8] } else { 4 }, "field of the list");
                } else {
                    panic!("section before the list was not read")
                }
            } else {
                assert!(fits(&w[6..5 + size], (w[5] as usize).min(5)).is_some(), "declared size is too small for the contents");
            }
        }
    }
}
