//! C06: decoding arbitrary octets ends with a value or an error, and what was
//! accepted can be written and read again.
use crate::each_composite;
use crate::fields::*;
use crate::kinds::alike;
use crate::spec::{enc, whole};
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, InMessage, OutMessage, ProtocolIdCodec, SaslFrame};
use bytes::{Bytes, BytesMut};
use tokio_codec::Decoder;
use uuid::Uuid;

/// Decoding ends; what is left is the end of the input.
fn ends<T: Decode>(w: &[u8]) -> Option<T> {
    match T::decode(w) {
        Ok((rest, v)) => {
            assert!(rest.len() <= w.len(), "more octets left than there were");
            let n = w.len() - rest.len();
            assert!(rest.as_ptr() == w[n..].as_ptr() || rest.is_empty(), "what is left is not the end of the input");
            Some(v)
        }
        Err(_) => None,
    }
}
/// ... and an accepted value survives a round trip.
fn again<T: Decode + Encode>(w: &[u8], equal: fn(&T, &T) -> bool) {
    if let Some(v) = ends::<T>(w) {
        let d: T = whole(T::decode(&enc(&v)));
        assert!(equal(&v, &d), "accepted value changed by encoding and decoding");
    }
}
fn eq<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}
fn scalar(k: usize, w: &[u8]) {
    match k {
        0 => again::<bool>(w, eq),
        1 => again::<u8>(w, eq),
        2 => again::<u16>(w, eq),
        3 => again::<u32>(w, eq),
        4 => again::<u64>(w, eq),
        5 => again::<i8>(w, eq),
        6 => again::<i16>(w, eq),
        7 => again::<i32>(w, eq),
        8 => again::<i64>(w, eq),
        9 => again::<f32>(w, |a, b| a.to_bits() == b.to_bits()),
        10 => again::<f64>(w, |a, b| a.to_bits() == b.to_bits()),
        11 => again::<char>(w, eq),
        12 => again::<Uuid>(w, eq),
        13 => again::<Bytes>(w, eq),
        14 => again::<ByteStr>(w, eq),
        15 => again::<Str>(w, eq),
        16 => again::<Symbol>(w, eq),
        17 => again::<Option<u32>>(w, eq),
        18 => again::<Option<Symbol>>(w, eq),
        19 => again::<MessageId>(w, eq),
        20 => again::<ErrorCondition>(w, eq),
        21 => again::<DistributionMode>(w, eq),
        22 => again::<Role>(w, eq),
        23 => again::<SenderSettleMode>(w, eq),
        24 => again::<ReceiverSettleMode>(w, eq),
        25 => again::<SaslCode>(w, eq),
        26 => again::<TerminusDurability>(w, eq),
        27 => again::<TerminusExpiryPolicy>(w, eq),
        28 => drop(ends::<Descriptor>(w)),
        _ => drop(ends::<Timestamp>(w)),
    }
}
const SCALARS: usize = 30;
fn compound(k: usize, w: &[u8]) {
    match k {
        0 => again::<List>(w, |a, b| alike(&Variant::List(a.clone()), &Variant::List(b.clone()))),
        1 => again::<Symbols>(w, eq),
        2 => again::<Vec<u8>>(w, eq),
        3 => again::<Vec<i16>>(w, eq),
        4 => again::<Vec<Bytes>>(w, eq),
        5 => again::<Vec<Symbol>>(w, eq),
        6 => again::<Variant>(w, alike),
        7 => drop(ends::<Fields>(w)),
        8 => drop(ends::<StringVariantMap>(w)),
        9 => drop(ends::<Map>(w)),
        10 => again::<VecVariantMap>(w, |a, b| {
            a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.0 == y.0 && alike(&x.1, &y.1))
        }),
        _ => drop(ends::<Vec<Fields>>(w)),
    }
}
const COMPOUNDS: usize = 12;
/// `n` free octets after the header of a list, map or array with free size
/// and count.
fn headed(k: usize, n: usize) -> Vec<u8> {
    let wide = sym::pick(2) == 1;
    let c = match k {
        0 | 6 => 0xc0,
        1..=5 | 11 => 0xe0,
        _ => 0xc1,
    };
    let mut w = vec![if wide { c + 0x10 } else { c }];
    w.extend_from_slice(&sym::octets(if wide { 8 } else { 2 } + n));
    w
}
fn union(k: usize, w: &[u8]) {
    match k {
        0 => again::<DeliveryState>(w, eq),
        1 => again::<Outcome>(w, eq),
        2 => drop(ends::<Section>(w)),
        3 => again::<Frame>(w, eq),
        4 => again::<SaslFrameBody>(w, eq),
        5 => {
            if let Some(v) = ends::<AmqpFrame>(w) {
                let d: AmqpFrame = whole(AmqpFrame::decode(&enc(&v)[4..]));
                assert!(d == v, "accepted frame changed by encoding and decoding");
            }
        }
        6 => {
            if let Some(v) = ends::<SaslFrame>(w) {
                let d: SaslFrame = whole(SaslFrame::decode(&enc(&v)[4..]));
                assert!(d.body == v.body, "accepted frame changed by encoding and decoding");
            }
        }
        7 => drop(ends::<InMessage>(w)),
        _ => drop(ends::<OutMessage>(w)),
    }
}
/// A described list with free size and count and `n` free octets.
fn composite<T: Composite>(n: usize) {
    let mut w = Vec::new();
    descriptor::<T>(&mut w, false);
    w.push(0xc0);
    w.extend_from_slice(&sym::octets(2 + n));
    ends::<T>(&w);
}
fn composite1<T: Composite>() {
    composite::<T>(1)
}
fn composite3<T: Composite>() {
    composite::<T>(3)
}
/// A value with all fields present and set contents.
fn plain<T: Composite>() -> Vec<u8> {
    let mut w = Vec::new();
    sym::plain(|| T::draw(999, Mode::Poor, Mode::Poor)).write(&mut w, false);
    w
}
/// `w` with one octet replaced by any other.
fn damage(mut w: Vec<u8>) -> Vec<u8> {
    let k = sym::pick(w.len());
    w[k] = sym::u8();
    w
}
fn damaged<T: Composite>() {
    again::<T>(&damage(plain::<T>()), eq)
}
/// One field in every structure.
fn damaged_rich<T: Composite>() {
    let mut w = Vec::new();
    sym::plain(one_free::<T>).write(&mut w, false);
    again::<T>(&damage(w), eq)
}
/// Two octets replaced.
fn damaged2<T: Composite>() {
    let mut w = plain::<T>();
    let n = w.len();
    let k = sym::pick(n * n);
    let (i, j) = (k / n, k % n);
    sym::assume(i < j);
    w[i] = sym::u8();
    w[j] = sym::u8();
    ends::<T>(&w);
}
fn frame_of<T: Composite>() -> Vec<u8> {
    let mut f = vec![0, 0, 0, 0, 2, 0, 0, 1];
    f.extend(plain::<T>());
    f[3] = f.len() as u8;
    f
}
/// A message with every kind of section.
fn message(k: usize) -> Vec<u8> {
    let mut w = Vec::new();
    sym::plain(|| Header::draw(999, Mode::Poor, Mode::Poor)).write(&mut w, false);
    w.extend_from_slice(&[0, 0x53, 0x71, 0xc1, 0x06, 0x02, 0xa3, 0x01, b'a', 0x50, 0x01]);
    w.extend_from_slice(&[0, 0x53, 0x72, 0xc1, 0x06, 0x02, 0xa3, 0x01, b'b', 0x50, 0x02]);
    w.extend_from_slice(&[0, 0x53, 0x74, 0xc1, 0x06, 0x02, 0xa1, 0x01, b'c', 0x50, 0x03]);
    match k {
        0 => w.extend_from_slice(&[0, 0x53, 0x75, 0xa0, 0x02, 0x01, 0x02, 0, 0x53, 0x75, 0xa0, 0x01, 0x03]),
        1 => w.extend_from_slice(&[0, 0x53, 0x76, 0xc0, 0x03, 0x01, 0x50, 0x01]),
        _ => w.extend_from_slice(&[0, 0x53, 0x77, 0xa1, 0x01, b'd']),
    }
    w.extend_from_slice(&[0, 0x53, 0x78, 0xc1, 0x06, 0x02, 0xa3, 0x01, b'e', 0x50, 0x04]);
    w
}
fn messages(k: usize, w: &[u8]) {
    match k {
        0 => again::<InMessage>(w, |a, b| {
            let mut a = a.clone();
            // an absent body is written as empty data
            if a.body().data.is_empty() && a.body().sequence.is_empty() && a.body().value.is_none() {
                a = a.set_body(|b| b.set_data(Bytes::new()))
            }
            a == *b
        }),
        _ => again::<OutMessage>(w, |_, _| true),
    }
}
/// The decoder is called until it has nothing to return or repeats an error;
/// it always gets there.
fn drain<C: Decoder>(mut c: C, w: &[u8]) {
    let mut buf = BytesMut::from(w);
    // each call that yields something consumes octets
    for _ in 0..=w.len() {
        let before = buf.len();
        match c.decode(&mut buf) {
            Ok(None) => return,
            Ok(Some(_)) => assert!(buf.len() < before, "an item out of nothing"),
            Err(_) if buf.len() == before => return,
            Err(_) => (),
        }
        assert!(buf.len() <= before, "octets appeared in the buffer");
    }
    panic!("the decoder never came to an end")
}
fn streamed(k: usize, w: &[u8]) {
    match k {
        0 => drain(AmqpCodec::<AmqpFrame>::new(), w),
        1 => drain(AmqpCodec::<SaslFrame>::new(), w),
        _ => drain(ProtocolIdCodec, w),
    }
}

harnesses! {
    // @bound 0 to 6 free octets as each of 30 scalar, optional and restricted types; accepted values written and read again
    // @opts {"shards":30}
    c06_scalar {
        let k = sym::pick(SCALARS);
        scalar(k, &sym::octets(sym::pick(7)))
    }
    // @bound 7 to 18 free octets as each fixed-width type (timestamps: C03)
    // @opts {"shards":12}
    c06_scalar_wide {
        let n = 7 + sym::pick(12);
        let k = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 17, 22, 23, 24, 25, 26][sym::pick(19)];
        scalar(k, &sym::octets(n))
    }
    // @bound 7 to 18 free octets as a dynamic value, the first naming a fixed-width type (any of 0x40 to 0x9f, but timestamps) or optional and restricted types over one
    // @opts {"shards":12}
    c06_dynamic_wide {
        let n = 7 + sym::pick(12);
        let w = sym::octets(n);
        sym::assume(w[0] >= 0x40 && w[0] < 0xa0 && w[0] != 0x83);
        match sym::pick(3) {
            0 => again::<Variant>(&w, alike),
            1 => again::<Option<Uuid>>(&w, eq),
            _ => again::<MessageId>(&w, eq),
        }
    }
    // @bound 0 to 4 free octets as each of 12 array, list, map and dynamic types
    // @opts {"shards":12}
    c06_compound {
        let k = sym::pick(COMPOUNDS);
        compound(k, &sym::octets(sym::pick(5)))
    }
    // @bound a list, map or array header of either width with free size and count, 0 to 3 free octets
    // @opts {"shards":12}
    c06_compound_headed {
        let k = sym::pick(COMPOUNDS);
        compound(k, &headed(k, sym::pick(4)))
    }
    // @bound 0 to 5 free octets as frame, SASL frame, message, section, outcome, delivery state
    // @opts {"shards":9}
    c06_union {
        let k = sym::pick(9);
        union(k, &sym::octets(sym::pick(6)))
    }
    // @bound a described list of each composite type with free size, count and one more octet
    // @opts {"shards":24}
    c06_composite {
        each_composite!(sym::pick(24), composite1)
    }
    // @bound a described list of each composite type with free size, count and three more octets
    // @opts {"shards":24}
    c06_composite_t {
        each_composite!(sym::pick(24), composite3)
    }
    // @bound an encoding of each composite type with each field in every structure and any one octet replaced by any other
    // @opts {"shards":24}
    c06_damaged_t {
        each_composite!(sym::pick(24), damaged_rich)
    }
    // @bound an encoding of each composite type with any one octet replaced by any other; accepted values written and read again
    // @opts {"shards":24}
    c06_damaged {
        each_composite!(sym::pick(24), damaged)
    }
    // @bound an encoding of each composite type with any two octets replaced by any others
    // @opts {"shards":24}
    c06_damaged_twice_t {
        each_composite!(sym::pick(24), damaged2)
    }
    // @bound messages with every kind of section, any one octet replaced by any other, read as either message type
    // @opts {"shards":6}
    c06_message {
        let k = sym::pick(6);
        messages(k % 2, &damage(message(k / 2)))
    }
    // @bound 0 to 12 free octets through the decoders of AMQP frames, SASL frames and protocol headers
    // @opts {"shards":3}
    c06_stream {
        let k = sym::pick(3);
        streamed(k, &sym::octets(sym::pick(13)))
    }
    // @bound a frame with each composite type as body, any one octet replaced by any other, through the frame decoder
    // @opts {"shards":24}
    c06_stream_damaged {
        let w = damage(each_composite!(sym::pick(24), frame_of));
        drain(AmqpCodec::<AmqpFrame>::new(), &w)
    }
    // @bound a SASL frame with each SASL body, any one octet replaced by any other, through the frame decoder
    // @opts {"shards":5}
    c06_stream_damaged_sasl {
        let mut w = match sym::pick(5) {
            0 => frame_of::<SaslMechanisms>(),
            1 => frame_of::<SaslInit>(),
            2 => frame_of::<SaslChallenge>(),
            3 => frame_of::<SaslResponse>(),
            _ => frame_of::<SaslOutcome>(),
        };
        w[5] = 1;
        drain(AmqpCodec::<SaslFrame>::new(), &damage(w))
    }
}
