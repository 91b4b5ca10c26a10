//! C09: memory requested while decoding is in proportion to the octets
//! present, whatever the input announces.
use crate::fields::*;
use crate::shapes::*;
use crate::sym;
use crate::{each_composite, each_compound, each_scalar};
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, InMessage, OutMessage, SaslFrame};
use bytes::BytesMut;
use tokio_codec::Decoder;

/// Heap in use may not grow by more than this while `n` octets are decoded.
fn bound(n: usize) -> usize {
    512 * n + 4096
}
/// The decoder's receive buffer grows in steps of this size.
const BUFFER: usize = 32768;

fn bounded<T: Decode>(w: &[u8]) {
    sym::heap_limit(bound(w.len()));
    let r = T::decode(w);
    sym::heap_limit(usize::max_value());
    witness!(r.is_ok(), "a value was accepted");
    witness!(r.is_err(), "input was rejected");
}
/// Elements of arrays have a width.
fn compound<T: Decode>(w: &[u8]) {
    if w[0] >= 0xe0 {
        let at = if w[0] < 0xf0 { 3 } else { 9 };
        sym::assume(w.len() <= at || w[at] >> 4 != 4)
    }
    bounded::<T>(w)
}
fn any_compound<T: Decode>(w: &[u8]) {
    if w.len() > 3 && w[0] == 0xe0 {
        sym::assume(w[3] >> 4 != 4)
    }
    bounded::<T>(w)
}
fn free(w: &mut Vec<u8>, n: usize) {
    w.extend_from_slice(&sym::octets(n))
}
/// Arrays of elements of no width: as many as the count says.
fn zero_width<T: Decode>(c: u8) {
    let n = [0u32, 1, 255, 65536, 1 << 24, !0][sym::pick(6)];
    let w = [0xf0, 0, 0, 0, 5, (n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8, c];
    bounded::<T>(&w)
}
fn wide_list<T: Composite>(n: usize) {
    let mut w = Vec::new();
    descriptor::<T>(&mut w, false);
    w.push(0xd0);
    free(&mut w, 8 + n);
    bounded::<T>(&w)
}
fn wide_list1<T: Composite>() {
    wide_list::<T>(1)
}
/// Every field in turn announces any length, size and count in 32 bits.
fn announced<T: Composite>() {
    let mut w = Vec::new();
    descriptor::<T>(&mut w, false);
    sym::assume(T::N > 0);
    let k = sym::pick(T::N);
    let codes = T::codes(k);
    let c = codes[sym::pick(codes.len())];
    sym::assume(c == 0 || c >= 0xb0 && c & 0x10 != 0);
    let v = sym::plain(|| T::draw(999, Mode::Poor, Mode::Poor));
    let mut body = Vec::new();
    for i in 0..k {
        v.write_field(i, &mut body, false)
    }
    if c == 0 {
        // a described value with a list of any size and count
        let at = body.len();
        v.write_field(k, &mut body, false);
        let mut p = at;
        while body[p] != 0xc0 && p + 1 < body.len() {
            p += 1
        }
        body.truncate(p);
        body.push(0xd0)
    } else {
        body.push(c)
    }
    free(&mut body, if c == 0 || c >= 0xc0 { 8 } else { 4 });
    // the constructor of array elements is sym32
    if c == 0xf0 {
        body.push(0xb3);
        free(&mut body, 4)
    } else {
        body.extend_from_slice(&[0x40, 0x40])
    }
    w.push(0xc0);
    w.push(body.len() as u8 + 1);
    w.push(k as u8 + 1);
    w.extend_from_slice(&body);
    bounded::<T>(&w)
}
fn section(code: u8, c: u8, n: usize) -> Vec<u8> {
    let mut w = vec![0, 0x53, code, c];
    free(&mut w, n);
    w
}

harnesses! {
    // @bound 0 to 6 free octets as each of 30 scalar, optional and restricted types
    // @opts {"shards":6}
    c09_scalar {
        let k = sym::pick(SCALARS);
        each_scalar!(k, bounded, &sym::octets(sym::pick(7)))
    }
    // @bound 0 to 4 free octets as each of 12 array, list, map and dynamic types (array elements with a width)
    // @opts {"shards":12}
    c09_compound {
        let k = sym::pick(COMPOUNDS);
        each_compound!(k, any_compound, &sym::octets(sym::pick(5)))
    }
    // @bound a list, map or array header of either width with free size and count, 0 to 3 free octets (12 types)
    // @opts {"shards":12}
    c09_compound_headed {
        let k = sym::pick(COMPOUNDS);
        each_compound!(k, compound, &headed(k, sym::pick(4)))
    }
    // @bound a compound header of 32-bit form, a list, map or array inside it of 32-bit form, both with free counts, the inner one with free size
    // @opts {"shards":9}
    c09_nested {
        let k = sym::pick(9);
        let (outer, inner) = ([0xd0, 0xd1, 0xf0][k / 3], [0xd0, 0xd1, 0xf0][k % 3]);
        let mut w = vec![outer, 0, 0, 0, 16];
        free(&mut w, 4);
        if outer == 0xd1 {
            w.push(0x40)
        }
        w.push(inner);
        free(&mut w, 8);
        w.extend_from_slice(&[0x50, 1, 0x50, 1]);
        w[4] = w.len() as u8 - 5;
        if outer == 0xf0 {
            bounded::<Vec<Fields>>(&w)
        } else {
            bounded::<Variant>(&w)
        }
    }
    // @bound each composite type: a list of 32-bit form with free size and count, one free octet
    // @opts {"shards":24}
    c09_composite {
        each_composite!(sym::pick(24), wide_list1)
    }
    // @bound each field of each composite type: text, binary, symbols, lists, maps and arrays of 32-bit form with free length, size and count and little behind it
    // @opts {"shards":24}
    c09_field {
        each_composite!(sym::pick(24), announced)
    }
    // @bound each kind of message section in 32-bit form with free length, size and count; both message types
    // @opts {"shards":8}
    c09_message {
        let (code, c, n) = [
            (0x70, 0xd0, 9), (0x71, 0xd1, 9), (0x72, 0xd1, 9), (0x74, 0xd1, 9),
            (0x75, 0xb0, 5), (0x76, 0xd0, 9), (0x77, 0xb1, 5), (0x78, 0xd1, 9),
        ][sym::pick(8)];
        let w = section(code, c, n);
        if sym::pick(2) == 0 {
            bounded::<InMessage>(&w)
        } else {
            bounded::<OutMessage>(&w)
        }
    }
    // @bound the frame decoder given a frame header with any size and 0 to 4 more octets; the receive buffer grows by at most 32768 octets
    // @opts {"shards":10}
    c09_stream {
        let mut w = vec![];
        let sasl = sym::pick(2) == 1;
        free(&mut w, 4 + sym::pick(5));
        let mut buf = BytesMut::from(&w[..]);
        sym::heap_limit(bound(w.len()) + BUFFER);
        if sasl {
            let _ = AmqpCodec::<SaslFrame>::new().decode(&mut buf);
        } else {
            let _ = AmqpCodec::<AmqpFrame>::new().decode(&mut buf);
        }
        sym::heap_limit(usize::max_value());
    }
    // @bound 10, 50 and 100 levels of lists, maps (by value or key) and described lists that all announce 40, 1000 or 2^32 - 1 elements, around 0, 200 or 2000 octets
    // @opts {"shards":9}
    c09_levels {
        let (n, fill) = ([10, 50, 100][sym::pick(3)], [0, 200, 2000][sym::pick(3)]);
        let count = [40u32, 1000, !0][sym::pick(3)];
        let (c, before): (u8, &[u8]) = [(0xd0, &[][..]), (0xd1, &[0x40][..]), (0xd1, &[][..]), (0xd0, &[0, 0x53, 1][..])][sym::pick(4)];
        let mut w = Vec::new();
        for i in 0..n {
            let size = (n - i) * (before.len() + 9) - 5 + fill;
            w.push(c);
            w.extend_from_slice(&[0, 0, (size >> 8) as u8, size as u8]);
            w.extend_from_slice(&[(count >> 24) as u8, (count >> 16) as u8, (count >> 8) as u8, count as u8]);
            w.extend_from_slice(before)
        }
        for _ in 0..fill {
            w.push(0x40)
        }
        bounded::<Variant>(&w)
    }
    // @bound arrays with elements of no width (true, false, 0) and counts of 0, 1, 255, 2^16, 2^24, 2^32 - 1
    // @opts {"shards":4}
    c09_zero_width {
        match sym::pick(4) {
            0 => zero_width::<Vec<u64>>(0x44),
            1 => zero_width::<Vec<u32>>(0x43),
            2 => zero_width::<Vec<bool>>(0x41),
            _ => zero_width::<Vec<bool>>(0x42),
        }
    }
}
