//! C07: an encoding cut short is incomplete input; octets that follow a value
//! are left alone and do not influence it.
use crate::fields::*;
use crate::kinds::{kind, KINDS};
use crate::shapes::*;
use crate::spec::{enc, ok};
use crate::sym;
use crate::{each_composite, each_compound, each_scalar};
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{AmqpFrame, AmqpParseError, Decode, InMessage, OutMessage, SaslFrame};
use bytes::Bytes;

/// Frame bodies: no octets at all are the empty frame.
fn local_frame(w: &[u8]) {
    for k in 1..w.len() {
        incomplete(Frame::decode(&w[..k]))
    }
    let v = ok(Frame::decode(w)).1;
    followed::<Frame>(w, &v, same)
}
fn incomplete<T>(r: Result<T, AmqpParseError>) {
    match r {
        Err(AmqpParseError::Incomplete(_)) => (),
        Ok(_) => panic!("a value out of an encoding cut short"),
        Err(_) => panic!("an encoding cut short is reported as another error"),
    }
}
/// Every cut of an encoding is incomplete.
fn cuts<T: Decode>(w: &[u8]) {
    let mut k = 0;
    while k < w.len() {
        incomplete(T::decode(&w[..k]));
        k += 1
    }
}
/// `w` holds exactly the value `v`; what follows is left alone.
fn followed<T: Decode>(w: &[u8], v: &T, same: fn(&T, &T) -> bool) {
    let (rest, x) = ok(T::decode(w));
    assert!(rest.is_empty(), "octets of the value left over");
    assert!(same(&x, v), "value depends on the octets that follow");
    let mut f = w.to_vec();
    let tail = sym::octets(2);
    f.extend_from_slice(&tail);
    let (rest, x) = ok(T::decode(&f));
    assert!(rest.len() == 2 && rest[0] == tail[0] && rest[1] == tail[1], "octets that follow are not returned");
    assert!(same(&x, v), "value depends on the octets that follow");
}
fn same<T: Same>(a: &T, b: &T) -> bool {
    a.same(b)
}
fn local<T: Decode + Same>(w: &[u8]) {
    if let Ok((rest, v)) = T::decode(w) {
        let n = w.len() - rest.len();
        assert!(rest.is_empty() || rest.as_ptr() == w[n..].as_ptr(), "what is left is not what follows");
        witness!("a value was accepted");
        cuts::<T>(&w[..n]);
        followed::<T>(&w[..n], &v, same)
    }
}
/// An encoding of a composite, written to the specification.
fn built<T: Composite>(v: T) -> Vec<u8> {
    let mut w = Vec::new();
    v.write(&mut w, false);
    w
}
fn one<T: Composite>(v: T) {
    let w = built(v);
    if T::NAME == "amqp:transfer:list" {
        return;
    }
    cuts::<T>(&w);
    let v = ok(T::decode(&w)).1;
    followed::<T>(&w, &v, |a, b| a == b)
}
fn poor<T: Composite>() {
    one(T::draw(999, Mode::Poor, Mode::Poor))
}
fn bare<T: Composite>() {
    one(T::draw(999, Mode::Bare, Mode::Bare))
}
fn rich<T: Composite>() {
    one(one_free::<T>())
}
/// A frame without its size.
fn framed<T: Composite>(kind: u8) -> Vec<u8> {
    let mut w = vec![2, kind, sym::u8(), sym::u8()];
    if sym::pick(2) == 1 {
        // an extended header
        w[0] = 3;
        w.extend_from_slice(&sym::octets(4))
    }
    w.extend(built(T::draw(999, Mode::Poor, Mode::Poor)));
    w
}
fn sections() -> [Vec<u8>; 6] {
    [
        built(Header::draw(999, Mode::Poor, Mode::Poor)),
        vec![0, 0x53, 0x71, 0xc1, 0x06, 0x02, 0xa3, 0x01, sym::ascii(), 0x50, sym::u8()],
        vec![0, 0x53, 0x72, 0xc1, 0x06, 0x02, 0xa3, 0x01, sym::ascii(), 0x50, sym::u8()],
        built(Properties::draw(0, Mode::Poor, Mode::Bare)),
        match sym::pick(3) {
            0 => vec![0, 0x53, 0x75, 0xa0, 0x02, sym::u8(), sym::u8()],
            1 => vec![0, 0x53, 0x76, 0xc0, 0x03, 0x01, 0x50, sym::u8()],
            _ => vec![0, 0x53, 0x77, 0xa1, 0x01, sym::ascii()],
        },
        vec![0, 0x53, 0x78, 0xc1, 0x06, 0x02, 0xa3, 0x01, sym::ascii(), 0x50, sym::u8()],
    ]
}
/// Cut inside a section: incomplete; between sections: the sections so far.
fn message<T: Decode>(equal: fn(&T, &T) -> bool) {
    let s = sections();
    let mut w = Vec::new();
    for x in s.iter() {
        let start = w.len();
        w.extend_from_slice(x);
        for k in start + 1..w.len() {
            incomplete(T::decode(&w[..k]))
        }
        let a = ok(T::decode(&w)).1;
        let (rest, b) = ok(T::decode(&w));
        assert!(rest.is_empty(), "octets of the message left over");
        assert!(equal(&a, &b), "message decoded in two ways");
    }
}
fn long(c: u8) -> Vec<u8> {
    let n = [0usize, 1, 254, 255, 256, 300][sym::pick(6)];
    let mut w = if n < 256 && sym::pick(2) == 0 {
        vec![c, n as u8]
    } else {
        vec![c + 0x10, 0, 0, (n >> 8) as u8, n as u8]
    };
    let k = w.len();
    w.resize(k + n, b'x');
    if n > 0 {
        w[k] = sym::ascii();
        let m = w.len() - 1;
        w[m] = sym::ascii();
    }
    w
}
fn long_as<T: Decode + Same>(c: u8) {
    local::<T>(&long(c))
}
/// A length beyond what is there.
fn beyond<T: Decode>(c: u8, n: usize) {
    let wide = sym::pick(2) == 1;
    let mut w = vec![if wide { c + 0x10 } else { c }];
    let mut len = 0u64;
    for _ in 0..if wide { 4 } else { 1 } {
        let b = sym::u8();
        len = len << 8 | b as u64;
        w.push(b)
    }
    for _ in 0..n {
        w.push(sym::ascii())
    }
    sym::assume(len > n as u64);
    incomplete(T::decode(&w))
}
fn beyond_compound<T: Decode>(k: usize) {
    let w = headed(k, 2);
    let (size, at) = if w.len() == 5 {
        (w[1] as u64, 2)
    } else {
        ((w[1] as u64) << 24 | (w[2] as u64) << 16 | (w[3] as u64) << 8 | w[4] as u64, 5)
    };
    sym::assume(size > (w.len() - at) as u64);
    incomplete(T::decode(&w))
}

harnesses! {
    // @bound 0 to 6 free octets as each of 30 scalar, optional and restricted types: where a value is accepted, every cut of it and two free octets after it
    // @opts {"shards":30}
    c07_scalar {
        let k = sym::pick(SCALARS);
        each_scalar!(k, local, &sym::octets(sym::pick(7)))
    }
    // @bound the same with 9 and 18 free octets and each fixed-width type
    // @opts {"shards":20}
    c07_scalar_wide {
        let k = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 17, 22, 23, 24, 25, 26][sym::pick(19)];
        each_scalar!(k, local, &sym::octets([9, 18][sym::pick(2)]))
    }
    // @bound dynamic values of 26 kinds with free contents: every cut, two free octets after it
    // @opts {"shards":13}
    c07_dynamic {
        let v = kind(sym::pick(KINDS), 2);
        local::<Variant>(&enc(&v))
    }
    // @bound the same for binary, text and symbols of 0, 1, 254, 255, 256 and 300 octets
    // @opts {"shards":6}
    c07_long {
        match sym::pick(6) {
            0 => long_as::<Bytes>(0xa0),
            1 => long_as::<ByteStr>(0xa1),
            2 => long_as::<Str>(0xa1),
            3 => long_as::<Symbol>(0xa3),
            4 => long_as::<Variant>(0xa0),
            _ => long_as::<MessageId>(0xa1),
        }
    }
    // @bound binary, text and symbols of 0 to 2 octets with a free length (8 or 32 bits) beyond that
    c07_beyond {
        let n = sym::pick(3);
        match sym::pick(6) {
            0 => beyond::<Bytes>(0xa0, n),
            1 => beyond::<ByteStr>(0xa1, n),
            2 => beyond::<Str>(0xa1, n),
            3 => beyond::<Symbol>(0xa3, n),
            4 => beyond::<Variant>(0xa1, n),
            _ => beyond::<Option<Symbol>>(0xa3, n),
        }
    }
    // @bound lists, maps and arrays (12 types) with a free size (8 or 32 bits) beyond the 2 octets that follow the header
    c07_beyond_compound {
        let k = sym::pick(COMPOUNDS);
        each_compound!(k, beyond_compound, k)
    }
    // @bound 0 to 4 free octets as each of 12 array, list, map and dynamic types
    // @opts {"shards":12}
    c07_compound {
        let k = sym::pick(COMPOUNDS);
        each_compound!(k, local, &sym::octets(sym::pick(5)))
    }
    // @bound a list, map or array header of either width with free size and count, 0 to 3 free octets
    // @opts {"shards":12}
    c07_compound_headed {
        let k = sym::pick(COMPOUNDS);
        each_compound!(k, local, &headed(k, sym::pick(4)))
    }
    // @bound each composite type with all fields present and free contents: every cut, two free octets after it
    // @opts {"shards":24}
    c07_composite {
        each_composite!(sym::pick(24), poor)
    }
    // @bound each composite type with the mandatory fields only: every cut, two free octets after it
    // @opts {"shards":24}
    c07_composite_bare {
        each_composite!(sym::pick(24), bare)
    }
    // @bound each composite type with each field in every structure: every cut, two free octets after it
    // @opts {"shards":24}
    c07_composite_t {
        each_composite!(sym::pick(24), rich)
    }
    // @bound a transfer with all fields: cut anywhere; the octets after it are its payload
    c07_transfer {
        let w = built(Transfer::draw(999, Mode::Poor, Mode::Poor));
        let body = Transfer::decode(&w).ok().map_or(0, |x| x.1.body.map_or(0, |b| b.len()));
        let n = w.len() - body;
        cuts::<Transfer>(&w[..n]);
        let a = ok(Transfer::decode(&w[..n])).1;
        let mut f = w[..n].to_vec();
        let tail = sym::octets(2);
        f.extend_from_slice(&tail);
        let (rest, mut b) = ok(Transfer::decode(&f));
        assert!(rest.is_empty(), "octets of the payload left over");
        match b.body.take() {
            Some(TransferBody::Data(d)) => assert!(d[..] == tail[..], "payload is not what follows the transfer"),
            _ => panic!("payload is not what follows the transfer"),
        }
        assert!(a == b, "transfer depends on its payload");
    }
    // @bound outcomes, delivery states, frame bodies with free contents: every cut, two free octets after it
    // @opts {"shards":17}
    c07_union {
        match sym::pick(17) {
            0 => local::<Outcome>(&built(Accepted::draw(999, Mode::Poor, Mode::Poor))),
            1 => local::<Outcome>(&built(Rejected::draw(999, Mode::Poor, Mode::Poor))),
            2 => local::<DeliveryState>(&built(Received::draw(999, Mode::Poor, Mode::Poor))),
            3 => local::<DeliveryState>(&built(Modified::draw(999, Mode::Poor, Mode::Poor))),
            4 => local_frame(&built(Open::draw(999, Mode::Poor, Mode::Poor))),
            5 => local_frame(&built(Begin::draw(999, Mode::Poor, Mode::Poor))),
            6 => local_frame(&built(Attach::draw(999, Mode::Poor, Mode::Poor))),
            7 => local_frame(&built(Flow::draw(999, Mode::Poor, Mode::Poor))),
            8 => local_frame(&built(Disposition::draw(999, Mode::Poor, Mode::Poor))),
            9 => local_frame(&built(Detach::draw(999, Mode::Poor, Mode::Poor))),
            10 => local_frame(&built(End::draw(999, Mode::Poor, Mode::Poor))),
            11 => local_frame(&built(Close::draw(999, Mode::Poor, Mode::Poor))),
            12 => local::<SaslFrameBody>(&built(SaslMechanisms::draw(999, Mode::Poor, Mode::Poor))),
            13 => local::<SaslFrameBody>(&built(SaslInit::draw(999, Mode::Poor, Mode::Poor))),
            14 => local::<SaslFrameBody>(&built(SaslChallenge::draw(999, Mode::Poor, Mode::Poor))),
            15 => local::<SaslFrameBody>(&built(SaslResponse::draw(999, Mode::Poor, Mode::Poor))),
            _ => local::<SaslFrameBody>(&built(SaslOutcome::draw(999, Mode::Poor, Mode::Poor))),
        }
    }
    // @bound frames with each AMQP and SASL body, with and without an extended header of four octets: every cut, except the one between header and body (an empty frame), and two free octets after it
    // @opts {"shards":13}
    c07_frame {
        let k = sym::pick(13);
        let w = match k {
            0 => framed::<Open>(0),
            1 => framed::<Begin>(0),
            2 => framed::<Attach>(0),
            3 => framed::<Flow>(0),
            4 => framed::<Disposition>(0),
            5 => framed::<Detach>(0),
            6 => framed::<End>(0),
            7 => framed::<Close>(0),
            8 => framed::<SaslMechanisms>(1),
            9 => framed::<SaslInit>(1),
            10 => framed::<SaslChallenge>(1),
            11 => framed::<SaslResponse>(1),
            _ => framed::<SaslOutcome>(1),
        };
        if k < 8 {
            for i in 0..w.len() {
                if i != w[0] as usize * 4 - 4 {
                    incomplete(AmqpFrame::decode(&w[..i]))
                }
            }
            let v = ok(AmqpFrame::decode(&w)).1;
            followed::<AmqpFrame>(&w, &v, |a, b| a == b);
        } else {
            cuts::<SaslFrame>(&w);
            let v = ok(SaslFrame::decode(&w)).1;
            followed::<SaslFrame>(&w, &v, |a, b| a.body == b.body);
        }
    }
    // @bound messages with 1 to 6 sections in order: every cut, as either message type
    // @opts {"shards":6}
    c07_message {
        match sym::pick(2) {
            0 => message::<InMessage>(|a, b| a == b),
            _ => message::<OutMessage>(|a, b| enc(a) == enc(b)),
        }
    }
}
