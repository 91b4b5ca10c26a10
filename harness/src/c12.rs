//! C12: writing frames appends exactly the frames.
use crate::fields::*;
use crate::frames::*;
use crate::spec::{enc, R};
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::{AmqpCodec, AmqpFrame, Encode, SaslFrame};
use bytes::{BufMut, Bytes, BytesMut};
use tokio_codec::{Decoder, Encoder};

/// An output buffer with `n` free octets in it and room for `room` more, in
/// one of several states.
fn output(n: usize, room: usize) -> (BytesMut, Vec<u8>) {
    let have = sym::octets(n);
    let mut b = match sym::pick(3) {
        0 => {
            let mut b = BytesMut::with_capacity(n + room);
            b.extend_from_slice(&have);
            b
        }
        // the front has been handed out before
        1 => {
            let mut b = BytesMut::with_capacity(n + room + 40);
            b.extend_from_slice(&[9; 40]);
            let _ = b.split_to(40);
            b.extend_from_slice(&have);
            b
        }
        // ... and is still in use
        _ => {
            let mut b = BytesMut::with_capacity(n + room + 40);
            b.extend_from_slice(&[9; 40]);
            std::mem::forget(b.split_to(40).freeze());
            b.extend_from_slice(&have);
            b
        }
    };
    if b.len() != n {
        b.truncate(n)
    }
    (b, have)
}
/// What was appended: a frame of the given type.
fn appended(b: &BytesMut, have: &[u8], kind: u8, channel: u16, size: usize) -> Vec<u8> {
    assert!(b.len() == have.len() + size, "octets appended differ from the announced size");
    assert!(b[..have.len()] == *have, "octets in the buffer changed");
    let mut r = R::new(&b[have.len()..]);
    assert!(r.be32() as usize == size, "size prefix differs from the octets written");
    assert!(r.u8() == 2, "data offset");
    assert!(r.u8() == kind, "frame type");
    assert!(r.be16() == channel, "channel");
    b[have.len() + 8..].to_vec()
}
fn rooms(k: usize, size: usize) -> usize {
    [0, 1, size - 1, size, 4095, 4096, 5000][k]
}
/// A performative into a buffer with some contents and some room.
fn one<T: InFrame<Union = Frame>>(v: T) {
    let want = enc(&v);
    let channel = sym::u16();
    let f = AmqpFrame::new(channel, v.wrap());
    let size = f.encoded_size();
    let (mut b, have) = output(sym::pick(3) * 2, rooms(sym::pick(7), size));
    let r = AmqpCodec::<AmqpFrame>::new().encode(f, &mut b);
    assert!(r.is_ok(), "a frame could not be written");
    let body = appended(&b, &have, 0, channel, size);
    assert!(body == want[..], "body of the frame");
}
fn one_sasl<T: InFrame<Union = SaslFrameBody>>(v: T) {
    let want = enc(&v);
    let f = SaslFrame::new(v.wrap());
    let size = f.encoded_size();
    let (mut b, have) = output(sym::pick(3) * 2, rooms(sym::pick(7), size));
    let r = AmqpCodec::<SaslFrame>::new().encode(f, &mut b);
    assert!(r.is_ok(), "a frame could not be written");
    let body = appended(&b, &have, 1, 0, size);
    assert!(body == want[..], "body of the frame");
}
fn poor<T: Composite>() -> T {
    T::draw(999, Mode::Poor, Mode::Poor)
}
fn bare<T: Composite>() -> T {
    T::draw(999, Mode::Bare, Mode::Bare)
}
fn performative(k: usize) -> Frame {
    match k {
        0 => Frame::Begin(bare()),
        1 => Frame::Flow(bare()),
        2 => Frame::Disposition(bare()),
        3 => Frame::Detach(poor()),
        4 => Frame::Close(bare()),
        5 => Frame::Transfer(Transfer {
            body: Some(TransferBody::Data(Bytes::from(sym::octets(3)))),
            ..bare()
        }),
        _ => Frame::Empty,
    }
}

harnesses! {
    // @bound each AMQP performative with all fields, free contents and channel, appended to 0, 2 or 4 octets with room for 0, 1, one less than it takes, exactly what it takes, 4095, 4096, 5000, in fresh and shared buffers
    // @opts {"shards":9}
    c12_amqp {
        match sym::pick(9) {
            0 => one::<Open>(poor()),
            1 => one::<Begin>(poor()),
            2 => one::<Attach>(poor()),
            3 => one::<Flow>(poor()),
            4 => one::<Transfer>(poor()),
            5 => one::<Disposition>(poor()),
            6 => one::<Detach>(poor()),
            7 => one::<End>(poor()),
            _ => one::<Close>(poor()),
        }
    }
    // @bound the same for the SASL bodies
    // @opts {"shards":5}
    c12_sasl {
        match sym::pick(5) {
            0 => one_sasl::<SaslMechanisms>(poor()),
            1 => one_sasl::<SaslInit>(poor()),
            2 => one_sasl::<SaslChallenge>(poor()),
            3 => one_sasl::<SaslResponse>(poor()),
            _ => one_sasl::<SaslOutcome>(poor()),
        }
    }
    // @bound an empty frame
    c12_empty {
        let channel = sym::u16();
        let f = AmqpFrame::new(channel, Frame::Empty);
        let (mut b, have) = output(sym::pick(3), rooms(sym::pick(7), 8));
        let size = f.encoded_size();
        assert!(AmqpCodec::<AmqpFrame>::new().encode(f, &mut b).is_ok(), "a frame could not be written");
        assert!(size == 8 && appended(&b, &have, 0, channel, 8).is_empty(), "empty frame");
    }
    // @bound frames of 4094 to 4098, 32766 to 32770 and 70000 octets in all (a payload with free ends) into buffers with room around the same sizes
    // @opts {"shards":11}
    c12_long {
        let n = [4094, 4095, 4096, 4097, 4098, 32766, 32767, 32768, 32769, 32770, 70000][sym::pick(11)];
        let channel = sym::u16();
        let t: Transfer = bare();
        let mut w = Vec::new();
        t.write(&mut w, false);
        let len = n - 8 - w.len();
        let mut data = vec![5; len];
        data[0] = sym::u8();
        data[len - 1] = sym::u8();
        w.extend_from_slice(&data);
        let f = AmqpFrame::new(channel, Frame::Transfer(Transfer { body: Some(TransferBody::Data(Bytes::from(data))), ..t }));
        assert!(f.encoded_size() == n, "announced size of the frame");
        let room = [0, 4095, 4096, n - 1, n, n + 1, 32767, 32768][sym::pick(8)];
        let (mut b, have) = output(2, room);
        assert!(AmqpCodec::<AmqpFrame>::new().encode(f, &mut b).is_ok(), "a frame could not be written");
        assert!(appended(&b, &have, 0, channel, n) == w, "body of the frame");
    }
    // @bound two frames of 7 kinds written in a row, read back, with another one written in between by the same codec
    // @opts {"shards":49}
    c12_sequence {
        let k = sym::pick(49);
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let (f, g) = (AmqpFrame::new(sym::u16(), performative(k / 7)), AmqpFrame::new(sym::u16(), performative(k % 7)));
        let mut b = BytesMut::with_capacity([0, 8, 4096][sym::pick(3)]);
        assert!(c.encode(f.clone(), &mut b).is_ok() && c.encode(g.clone(), &mut b).is_ok(), "a frame could not be written");
        let mut other = BytesMut::new();
        match c.decode(&mut b) {
            Ok(Some(x)) => assert!(x == f, "first frame differs from the one written"),
            _ => panic!("first frame was not read"),
        }
        // writing does not disturb reading: half of the second frame is there
        let n = b.len();
        let mut half = b.split_to(n / 2 + 4);
        match c.decode(&mut half) {
            Ok(None) => (),
            Ok(Some(_)) => assert!(half.is_empty() && b.is_empty(), "a frame out of half of it"),
            Err(_) => panic!("half a frame was rejected"),
        }
        if b.is_empty() {
            return;
        }
        assert!(c.encode(f.clone(), &mut other).is_ok(), "a frame could not be written");
        half.put_slice_grow(&b);
        match c.decode(&mut half) {
            Ok(Some(x)) => assert!(x == g, "second frame differs from the one written"),
            _ => panic!("second frame was not read"),
        }
        assert!(half.is_empty(), "octets left over");
        match c.decode(&mut other) {
            Ok(Some(x)) => assert!(x == f, "third frame differs from the one written"),
            _ => panic!("third frame was not read"),
        }
        witness!("three frames came back");
    }
}
trait Grow {
    fn put_slice_grow(&mut self, w: &[u8]);
}
impl Grow for BytesMut {
    fn put_slice_grow(&mut self, w: &[u8]) {
        self.reserve(w.len());
        self.put_slice(w)
    }
}
