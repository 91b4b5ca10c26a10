//! C21: protocol headers are recognised exactly.
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::{AmqpCodec, AmqpFrame, ProtocolIdCodec, ProtocolIdError};
use bytes::{BufMut, BytesMut};
use tokio_codec::{Decoder, Encoder};

const IDS: [(u8, ProtocolId); 3] = [(0, ProtocolId::Amqp), (2, ProtocolId::AmqpTls), (3, ProtocolId::AmqpSasl)];

/// What the specification says about these eight octets.
fn judge(h: &[u8], got: Result<Option<ProtocolId>, ProtocolIdError>) -> bool {
    let name = h[0] == b'A' && h[1] == b'M' && h[2] == b'Q' && h[3] == b'P';
    let version = h[5] == 1 && h[6] == 0 && h[7] == 0;
    let mut id = None;
    for (c, p) in &IDS {
        if h[4] == *c {
            id = Some(*p)
        }
    }
    match got {
        Ok(None) => panic!("a complete header was not read"),
        Ok(Some(p)) => {
            assert!(name, "header with another name accepted");
            assert!(version, "header with another version accepted");
            assert!(Some(p) == id, "protocol of the header");
            witness!("a header");
            true
        }
        // each fault is reported as what it is
        Err(ProtocolIdError::InvalidHeader) => {
            assert!(!name, "name reported as wrong");
            witness!("wrong name");
            false
        }
        Err(ProtocolIdError::Incompatible) => {
            assert!(!version, "version reported as wrong");
            witness!("wrong version");
            false
        }
        Err(ProtocolIdError::Unknown) => {
            assert!(id.is_none(), "protocol id reported as unknown");
            witness!("unknown id");
            false
        }
        Err(_) => panic!("another error than the header has"),
    }
}
/// The header, with two octets free.
fn near() -> Vec<u8> {
    let mut h = b"AMQP\0\x01\0\0".to_vec();
    let i = sym::pick(8);
    let j = sym::pick(8);
    h[i] = sym::u8();
    h[j] = sym::u8();
    h
}

harnesses! {
    // @bound all eight octets free, 0-3 free octets after them
    c21_all {
        let h = sym::octets(8);
        let tail = sym::octets(sym::pick(4));
        let mut buf = BytesMut::from(&h[..]);
        buf.extend_from_slice(&tail);
        let r = ProtocolIdCodec::default().decode(&mut buf);
        judge(&h, r);
        assert!(&buf[..] == &tail[..], "octets after the header");
    }
    // @bound a prefix of 0-7 free octets
    c21_prefix {
        let h = sym::octets(sym::pick(8));
        let mut buf = BytesMut::from(&h[..]);
        match ProtocolIdCodec::default().decode(&mut buf) {
            Ok(None) => (),
            _ => panic!("header read before it is complete"),
        }
        assert!(&buf[..] == &h[..], "octets of an incomplete header");
    }
    // @bound a header with any two octets free, arriving in up to three parts cut anywhere, followed by another header
    // @opts {"shards":4}
    c21_parts {
        let h = near();
        let mut w = h.clone();
        w.extend_from_slice(b"AMQP\x03\x01\0\0");
        let a = sym::pick(9);
        let b = a + sym::pick(9);
        sym::assume(b >= 8 || b == a);
        let mut c = ProtocolIdCodec::default();
        let mut buf = BytesMut::with_capacity(16);
        let mut first = None;
        let mut from = 0;
        for &to in &[a, b, 16] {
            if to < from || to > 16 {
                return;
            }
            buf.extend_from_slice(&w[from..to]);
            from = to;
            if first.is_none() {
                let r = c.decode(&mut buf);
                if from < 8 {
                    match r {
                        Ok(None) => (),
                        _ => panic!("header read before it is complete"),
                    }
                    assert!(&buf[..] == &w[..from], "octets of an incomplete header");
                } else {
                    first = Some(judge(&h, r));
                    assert!(&buf[..] == &w[8..from], "octets after the header");
                }
            }
        }
        match c.decode(&mut buf) {
            Ok(Some(ProtocolId::AmqpSasl)) => (),
            _ => panic!("header after the first"),
        }
        assert!(buf.is_empty(), "octets left over");
        witness!("in parts");
    }
    // @bound a header, then any frame of the empty or end kind, in the same buffer
    c21_then_frame {
        let (id, p) = IDS[sym::pick(3)];
        let mut w = b"AMQP".to_vec();
        w.extend_from_slice(&[id, 1, 0, 0]);
        let (c0, c1) = (sym::u8(), sym::u8());
        w.extend_from_slice(&[0, 0, 0, 8, 2, 0, c0, c1]);
        let mut buf = BytesMut::from(&w[..]);
        match ProtocolIdCodec::default().decode(&mut buf) {
            Ok(Some(q)) => assert!(p == q, "protocol of the header"),
            _ => panic!("header not read"),
        }
        match AmqpCodec::<AmqpFrame>::new().decode(&mut buf) {
            Ok(Some(f)) => assert!(f.channel_id() == (c0 as u16) << 8 | c1 as u16 && *f.performative() == Frame::Empty, "frame after the header"),
            _ => panic!("frame after the header lost"),
        }
        assert!(buf.is_empty(), "octets left over");
    }
    // @bound every protocol, written twice behind octets into a buffer with room for 0-17 more (stored inline, on the heap, or shared with another buffer), and read back
    // @opts {"shards":3}
    c21_write {
        let (id, p) = IDS[sym::pick(3)];
        let kind = sym::pick(3);
        let room = sym::pick(18);
        let mut buf = BytesMut::with_capacity([0, 64, 200][kind]);
        let other = if kind == 2 { Some(buf.split_to(90)) } else { None };
        let mut before = vec![7; buf.remaining_mut() - room];
        before[0] = sym::u8();
        buf.put_slice(&before);
        assert!(buf.remaining_mut() == room, "harness: room left");
        let mut c = ProtocolIdCodec::default();
        let header = [b'A', b'M', b'Q', b'P', id, 1, 0, 0];
        for k in 1..3 {
            match c.encode(p, &mut buf) {
                Ok(()) => (),
                Err(_) => panic!("header not written"),
            }
            assert!(buf.len() == before.len() + 8 * k, "octets written");
        }
        assert!(&buf[..before.len()] == &before[..], "octets before the header");
        assert!(&buf[before.len()..before.len() + 8] == &header[..] && &buf[before.len() + 8..] == &header[..], "header written");
        let _ = buf.split_to(before.len());
        for _ in 0..2 {
            match c.decode(&mut buf) {
                Ok(Some(q)) => assert!(p == q, "protocol read back"),
                _ => panic!("header not read back"),
            }
        }
        assert!(buf.is_empty(), "octets left over");
    }
}
