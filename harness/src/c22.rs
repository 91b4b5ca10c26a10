//! C22: payloads travel verbatim through transfers and SASL frames.
use crate::fields::*;
use crate::messages::*;
use crate::spec::{enc, whole, R};
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::types::Symbol;
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, InMessage, OutMessage, SaslFrame};
use bytes::{Bytes, BytesMut};
use tokio_codec::{Decoder, Encoder};

/// `n` octets, free near the ends; the others are all different from their
/// neighbours.
fn payload(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(if i < 3 || i + 2 >= n { sym::u8() } else { (i * 7 + i / 256) as u8 })
    }
    v
}
/// The same octets, stored in one of the possible ways.
fn stored(v: &[u8]) -> Bytes {
    match sym::pick(3) {
        0 => Bytes::from(v.to_vec()),
        1 => {
            let mut w = vec![7; 2];
            w.extend_from_slice(v);
            w.push(7);
            Bytes::from(w).slice(2, 2 + v.len())
        }
        _ => {
            let mut b = BytesMut::with_capacity(v.len() + 4);
            b.extend_from_slice(&[1, 2]);
            b.extend_from_slice(v);
            b.split_to(2);
            b.freeze()
        }
    }
}
const SHORT: usize = 6;
const LONGS: usize = 12;
const LONG: [usize; LONGS] = [30, 33, 254, 255, 256, 257, 258, 1024, 5000, 65535, 65536, 70000];
fn bare<T: Composite>() -> T {
    T::draw(999, Mode::Bare, Mode::Bare)
}
/// Performatives through both directions of the codec, in one stream.
fn send(frames: Vec<Frame>) -> (Vec<u8>, Vec<Frame>) {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::new();
    let n = frames.len();
    for f in frames {
        assert!(c.encode(AmqpFrame::new(3, f), &mut b).is_ok(), "a frame could not be written");
    }
    let w = b.to_vec();
    let mut got = Vec::new();
    for _ in 0..n {
        match c.decode(&mut b) {
            Ok(Some(f)) => got.push(f.into_parts().1),
            _ => panic!("a frame was not read"),
        }
    }
    assert!(b.is_empty(), "octets left after the frames");
    (w, got)
}
fn data_of(f: &Frame) -> Option<&Bytes> {
    match f {
        Frame::Transfer(t) => match t.body() {
            Some(TransferBody::Data(d)) => Some(d),
            None => None,
            Some(_) => panic!("a payload is read as octets"),
        },
        _ => panic!("a transfer became something else"),
    }
}
/// A payload in a transfer of its own, and followed by another frame.
fn transferred(t: Transfer, v: Vec<u8>) {
    let body = TransferBody::Data(stored(&v));
    assert!(body.len() == v.len() && body.message_format().is_none(), "a payload of octets");
    let t = Transfer { body: Some(body), ..t };
    let e = enc(&t);
    assert!(e[e.len() - v.len()..] == v[..], "the payload ends the transfer");
    let more = sym::pick(3);
    let mut list = vec![Frame::Transfer(t)];
    match more {
        0 => (),
        1 => list.push(Frame::Empty),
        _ => list.push(Frame::Transfer(Transfer { body: Some(TransferBody::Data(Bytes::from(&b"next"[..]))), ..bare() })),
    }
    let (w, got) = send(list);
    assert!(w[8..8 + e.len()] == e[..], "a transfer in its frame");
    // no octets are no payload
    match data_of(&got[0]) {
        Some(d) => assert!(!v.is_empty() && d[..] == v[..], "payload changed by the transfer"),
        None => assert!(v.is_empty(), "payload lost by the transfer"),
    }
    if more == 2 {
        assert!(data_of(&got[1]).map_or(false, |d| d[..] == b"next"[..]), "payload of the next transfer");
    }
}
/// One or the other kind of message around `p`, and what it encodes to.
fn around(p: &Parts) -> (TransferBody, Vec<u8>) {
    if sym::pick(2) == 0 {
        let mut m = p.build_in();
        m.message_format = Some(17);
        let e = enc(&m).to_vec();
        (TransferBody::from(m), e)
    } else {
        let mut m = p.build_out();
        m.message_format = Some(17);
        let e = enc(&m).to_vec();
        (TransferBody::from(m), e)
    }
}
fn small(k: usize) -> Parts {
    // a message cannot be set the annotations
    Parts::draw([0, 1, 8, 16, 25][k % 5], 99).body([0, 2, 3, 5, 8][k / 5])
}
const SMALL: usize = 25;
/// A nested message: octets `e`, written for what `p` says.
fn nested(d: &[u8], e: &[u8], p: &Parts) {
    assert!(d == e, "nested message changed");
    p.same_in(&whole(InMessage::decode(d)), true);
    p.same_out(&whole(OutMessage::decode(d)), true);
}
/// A body with these nested messages, encoded by either type, its data.
fn nest(data: Vec<Bytes>, messages: Vec<TransferBody>) -> Vec<Bytes> {
    let e = if sym::pick(2) == 0 {
        let m = InMessage::with_messages(messages).set_body(|b| b.data = data.clone());
        enc(&m)
    } else {
        let m = OutMessage::with_messages(messages).set_body(|b| b.data = data.clone());
        enc(&m)
    };
    let b = whole(OutMessage::decode(&e)).body().clone();
    assert!(b.messages.is_empty() && b.sequence.is_empty() && b.value.is_none(), "nested messages are read as data");
    let c = whole(InMessage::decode(&e)).body().clone();
    assert!(b == c, "body read differently by the message types");
    b.data
}
fn reply(m: OutMessage, want: Option<MessageId>, had: bool) {
    assert!(m.header().is_none() && m.app_properties().is_none() && m.message_format.is_none(), "a reply has nothing else");
    assert!(m.body().data.is_empty() && m.body().value.is_none() && m.body().sequence.is_empty() && m.body().messages.is_empty(), "a reply has no body");
    match m.properties() {
        Some(p) => assert!(had && *p == Properties { correlation_id: want.clone(), ..Properties::default() }, "properties of a reply"),
        None => assert!(want.is_none(), "reply without correlation"),
    }
    let e = enc(&m);
    let d = whole(InMessage::decode(&e));
    let got = d.properties().and_then(|p| p.correlation_id.clone());
    assert!(got == want, "correlation of a reply changed");
}
fn sasl(f: SaslFrameBody) -> SaslFrameBody {
    let mut c = AmqpCodec::<SaslFrame>::new();
    let mut b = BytesMut::new();
    assert!(c.encode(SaslFrame::new(f), &mut b).is_ok(), "a frame could not be written");
    match c.decode(&mut b) {
        Ok(Some(f)) => {
            assert!(b.is_empty(), "octets left after the frame");
            f.body
        }
        _ => panic!("a frame was not read"),
    }
}
/// Octets through a SASL body of every kind that carries some.
fn authenticate(k: usize, v: Vec<u8>) {
    let d = stored(&v);
    match k {
        0 => match sasl(SaslFrameBody::SaslInit(SaslInit { initial_response: Some(d), ..bare() })) {
            SaslFrameBody::SaslInit(x) => assert!(x.initial_response().map_or(false, |r| r[..] == v[..]), "initial response changed"),
            _ => panic!("SASL init became something else"),
        },
        1 => match sasl(SaslFrameBody::SaslChallenge(SaslChallenge { challenge: d })) {
            SaslFrameBody::SaslChallenge(x) => assert!(x.challenge()[..] == v[..], "challenge changed"),
            _ => panic!("SASL challenge became something else"),
        },
        2 => match sasl(SaslFrameBody::SaslResponse(SaslResponse { response: d })) {
            SaslFrameBody::SaslResponse(x) => assert!(x.response()[..] == v[..], "response changed"),
            _ => panic!("SASL response became something else"),
        },
        _ => match sasl(SaslFrameBody::SaslOutcome(SaslOutcome { additional_data: Some(d), ..bare() })) {
            SaslFrameBody::SaslOutcome(x) => assert!(x.additional_data().map_or(false, |r| r[..] == v[..]), "additional data changed"),
            _ => panic!("SASL outcome became something else"),
        },
    }
}
/// Octets as the data of a message.
fn carried(v: Vec<u8>) {
    let d = stored(&v);
    let e = match sym::pick(4) {
        0 => enc(&InMessage::with_body(d)),
        1 => enc(&OutMessage::with_body(d)),
        2 => enc(&InMessage::with_body(Bytes::from(&b"old"[..])).set_body(|b| b.set_data(d.clone()))),
        _ => enc(&OutMessage::with_body(Bytes::from(&b"old"[..])).set_body(|b| b.set_data(d.clone()))),
    };
    let mut r = R::new(&e);
    assert!(r.descriptor() == 0x75 && r.binary() == &v[..], "data section of the message");
    r.end();
    let (i, o) = (whole(InMessage::decode(&e)), whole(OutMessage::decode(&e)));
    assert!(i.body().data.len() == 1 && o.body().data.len() == 1, "data sections of the message");
    assert!(i.body().data().map_or(false, |d| d[..] == v[..]), "data of the message changed");
    assert!(o.body().data().map_or(false, |d| d[..] == v[..]), "data of the message changed");
}

harnesses! {
    // @bound payloads of 0-5 free octets in a transfer with all fields present or absent, stored whole or as a part of a buffer, written by the codec alone, before an empty frame, and before another transfer, and read back
    // @opts {"shards":6}
    c22_transfer {
        let n = sym::pick(SHORT);
        let t: Transfer = if sym::pick(2) == 0 { bare() } else { Transfer::draw(999, Mode::Poor, Mode::Poor) };
        transferred(t, payload(n))
    }
    // @bound payloads of 30, 33, 254-258, 1024, 5000, 65535, 65536 and 70000 octets, free near the ends
    // @opts {"shards":12}
    c22_transfer_long {
        let n = LONG[sym::pick(LONGS)];
        transferred(bare(), payload(n))
    }
    // @bound transfers whose payload is an incoming or outgoing message of 25 shapes (sections and bodies) with free contents; the payload read back is that message
    // @opts {"shards":5}
    c22_message {
        let p = small(sym::pick(SMALL));
        let (body, e) = around(&p);
        assert!(body.len() == e.len(), "announced size of the payload");
        assert!(body.message_format() == Some(17), "message format of the payload");
        let t: Transfer = bare();
        let (_, got) = send(vec![Frame::Transfer(Transfer { body: Some(body), ..t }), Frame::Empty]);
        match data_of(&got[0]) {
            Some(d) => nested(d, &e, &p),
            None => panic!("message lost by the transfer"),
        }
    }
    // @bound a message of 25 shapes nested alone, after data, or with a second nested message or octets after it, in a message of either type
    // @opts {"shards":5}
    c22_nested {
        let p = small(sym::pick(SMALL));
        let (body, e) = around(&p);
        match sym::pick(4) {
            0 => {
                let d = nest(vec![], vec![body]);
                assert!(d.len() == 1, "nested messages");
                nested(&d[0], &e, &p)
            }
            1 => {
                let x = payload(2);
                let d = nest(vec![stored(&x)], vec![body]);
                assert!(d.len() == 2 && d[0][..] == x[..], "data before the nested message");
                nested(&d[1], &e, &p)
            }
            2 => {
                let q = small(9);
                let (second, f) = around(&q);
                let d = nest(vec![], vec![body, second]);
                assert!(d.len() == 2, "nested messages");
                nested(&d[0], &e, &p);
                nested(&d[1], &f, &q)
            }
            _ => {
                let x = payload(sym::pick(3));
                let d = nest(vec![], vec![body, TransferBody::Data(stored(&x))]);
                assert!(d.len() == 2, "nested messages");
                nested(&d[0], &e, &p);
                assert!(d[1][..] == x[..], "nested octets changed")
            }
        }
    }
    // @bound nested octets of 250 to 260 octets, and nested messages of 250 to 264 octets in all, in messages of either type
    // @opts {"shards":13}
    c22_nested_long {
        let k = sym::pick(13);
        let v = payload(250 + k);
        if sym::pick(2) == 0 {
            let d = nest(vec![], vec![TransferBody::Data(stored(&v))]);
            assert!(d.len() == 1 && d[0][..] == v[..], "nested octets changed");
        } else {
            // 3 octets of descriptor, 2 to 5 of the data
            let v = v[..245 + k].to_vec();
            let p = Parts { data: vec![Bytes::from(v)], ..Parts::draw(0, 99) };
            let (body, e) = around(&p);
            let d = nest(vec![], vec![body]);
            assert!(d.len() == 1, "nested messages");
            nested(&d[0], &e, &p)
        }
    }
    // @bound a message nested in a nested message, all of either type, lengths on either side of 255
    // @opts {"shards":8}
    c22_twice {
        let n = [1, 240, 246, 250][sym::pick(4)];
        let p = Parts { data: vec![Bytes::from(payload(n))], ..Parts::draw(0, 99) };
        let (body, e) = around(&p);
        let mid = OutMessage::with_messages(vec![body]);
        let f = enc(&mid).to_vec();
        let d = nest(vec![], vec![TransferBody::from(mid)]);
        assert!(d.len() == 1 && d[0][..] == f[..], "nested message changed");
        let m = whole(InMessage::decode(&d[0]));
        assert!(m.body().data.len() == 1, "nested messages");
        nested(&m.body().data[0], &e, &p)
    }
    // @bound message data of 0-5 free octets and of the long lengths above, by each way of making a message
    // @opts {"shards":18}
    c22_data {
        let k = sym::pick(SHORT + LONGS);
        carried(payload(if k < SHORT { k } else { LONG[k - SHORT] }))
    }
    // @bound replies to messages of either type without properties, without message id, and with an id of every kind (texts and octets of 0-3); the other properties and sections present or absent; made by the setters or read from the wire
    // @opts {"shards":4}
    c22_reply {
        let mut p = Parts::draw([0, 8, 25][sym::pick(3)], 99).body(0);
        if let Some(ref mut x) = p.properties {
            *x = Properties { correlation_id: Some(MessageId::Ulong(sym::u64())), subject: Some(text(b"s".to_vec())), ..Properties::any(Mode::Bare) };
            x.message_id = if sym::pick(2) == 0 { None } else { Some(MessageId::any(Mode::Rich)) };
        }
        let want = p.properties.as_ref().and_then(|x| x.message_id.clone());
        let had = p.properties.is_some();
        if sym::pick(2) == 0 {
            reply(p.build_in().reply_message(), want, had)
        } else {
            reply(p.build_out().reply_message(), want, had)
        }
    }
    // @bound the same for messages read from the wire
    // @opts {"shards":4}
    c22_reply_read {
        let mut p = Parts::draw([0, 8, 25][sym::pick(3)], 99).body(0);
        if let Some(ref mut x) = p.properties {
            x.message_id = if sym::pick(2) == 0 { None } else { Some(MessageId::any(Mode::Rich)) };
            x.user_id = Some(Bytes::from(sym::octets(2)));
        }
        let want = p.properties.as_ref().and_then(|x| x.message_id.clone());
        let had = p.properties.is_some();
        let mut w = Vec::new();
        p.write(&mut w, false);
        reply(whole(InMessage::decode(&w)).reply_message(), want.clone(), had);
        reply(whole(OutMessage::decode(&w)).reply_message(), want, had)
    }
    // @bound octets of 0-5 free in every SASL body that carries some
    // @opts {"shards":4}
    c22_sasl {
        let k = sym::pick(4);
        authenticate(k, payload(sym::pick(SHORT)))
    }
    // @bound octets of the long lengths in every SASL body that carries some
    // @opts {"shards":12}
    c22_sasl_long {
        let n = LONG[sym::pick(LONGS)];
        authenticate(sym::pick(4), payload(n))
    }
    // @bound PLAIN responses of identities and password of 0-3 characters, one of them of any width
    // @opts {"shards":4}
    c22_plain {
        let (x, y, z) = (sym::text(sym::pick(4)), sym::text(sym::pick(4)), if sym::pick(2) == 0 { sym::text(sym::pick(4)) } else { sym::char().to_string() });
        let r = SaslInit::prepare_response(&x, &y, &z);
        let mut want = x.into_bytes();
        want.push(0);
        want.extend_from_slice(y.as_bytes());
        want.push(0);
        want.extend_from_slice(z.as_bytes());
        assert!(r[..] == want[..], "PLAIN response");
        match sasl(SaslFrameBody::SaslInit(SaslInit { mechanism: Symbol::from("PLAIN"), initial_response: Some(r), hostname: None })) {
            SaslFrameBody::SaslInit(i) => assert!(i.initial_response().map_or(false, |r| r[..] == want[..]), "PLAIN response changed"),
            _ => panic!("SASL init became something else"),
        }
    }
}
