//! C11: malformed frames are rejected, and only they are lost.
use crate::fields::*;
use crate::frames::*;
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::{AmqpCodec, AmqpFrame, SaslFrame};
use bytes::BytesMut;
use tokio_codec::Decoder;

/// A frame that is good: what follows the frame under test.
fn good(w: &mut Vec<u8>) -> u16 {
    let c = (sym::u8(), sym::u8());
    w.extend_from_slice(&[0, 0, 0, 15, 2, 0, c.0, c.1, 0, 0x53, 0x17, 0xc0, 2, 1, 0x40]);
    (c.0 as u16) << 8 | c.1 as u16
}
fn good_sasl(w: &mut Vec<u8>) {
    w.extend_from_slice(&[0, 0, 0, 16, 2, 1, 0, 0, 0, 0x53, 0x44, 0xc0, 3, 1, 0x50, 0]);
}
/// Whether the decoder accepts the frame in front; the one after it always
/// comes out next.
fn amqp(mut w: Vec<u8>) -> Option<AmqpFrame> {
    let channel = good(&mut w);
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut buf = BytesMut::from(&w[..]);
    let first = match c.decode(&mut buf) {
        Ok(Some(f)) => Some(f),
        Ok(None) => panic!("a complete frame was not delivered"),
        Err(_) => None,
    };
    assert!(buf.len() == 15, "octets of the frame not dropped whole");
    match c.decode(&mut buf) {
        Ok(Some(f)) => {
            assert!(f.channel_id() == channel, "channel of the frame after");
            assert!(*f.performative() == Frame::End(End { error: None }), "frame after is not the one sent");
        }
        _ => panic!("frame after was lost"),
    }
    assert!(buf.is_empty(), "octets left over");
    first
}
fn sasl(mut w: Vec<u8>) -> Option<SaslFrame> {
    good_sasl(&mut w);
    let mut c = AmqpCodec::<SaslFrame>::new();
    let mut buf = BytesMut::from(&w[..]);
    let first = match c.decode(&mut buf) {
        Ok(Some(f)) => Some(f),
        Ok(None) => panic!("a complete frame was not delivered"),
        Err(_) => None,
    };
    assert!(buf.len() == 16, "octets of the frame not dropped whole");
    match c.decode(&mut buf) {
        Ok(Some(SaslFrame { body: SaslFrameBody::SaslOutcome(o) })) => {
            assert!(o.code == SaslCode::Ok, "frame after is not the one sent")
        }
        _ => panic!("frame after was lost"),
    }
    assert!(buf.is_empty(), "octets left over");
    first
}
/// A body that fills its frame exactly, as far as the frame type goes.
fn body(k: usize) -> Vec<u8> {
    let mut w = Vec::new();
    match k {
        0 => Close::draw(999, Mode::Bare, Mode::Bare).write(&mut w, false),
        1 => Begin::draw(999, Mode::Bare, Mode::Bare).write(&mut w, false),
        2 => Detach::draw(999, Mode::Poor, Mode::Poor).write(&mut w, false),
        3 => SaslChallenge::draw(999, Mode::Poor, Mode::Poor).write(&mut w, false),
        _ => SaslOutcome::draw(999, Mode::Poor, Mode::Poor).write(&mut w, false),
    }
    w
}
/// ... with set contents.
fn set_body(k: usize) -> Vec<u8> {
    match k {
        0 => sym::plain(|| body(0)),
        1 => sym::plain(|| body(1)),
        _ => sym::plain(|| body(2)),
    }
}
/// A frame with free data offset, type and channel, `ext` octets of extended
/// header and a body.
fn headed(ext: usize, body: &[u8]) -> Vec<u8> {
    let n = 8 + ext + body.len();
    let mut w = vec![0, 0, 0, n as u8];
    w.extend_from_slice(&sym::octets(4 + ext));
    // every data offset, the likely ones in turn
    let d = sym::pick(12);
    if d < 11 {
        w[4] = d as u8
    } else {
        sym::assume(w[4] > 10)
    }
    w.extend_from_slice(body);
    w
}
fn set(mut w: Vec<u8>, kind: u8) -> Vec<u8> {
    w[3] = w.len() as u8;
    w[4] = 2;
    w[5] = kind;
    w
}

harnesses! {
    // @bound frames of three AMQP bodies with 0 to 4 extended header octets, all of the header free but the size, then a good frame
    // @opts {"shards":15}
    c11_header {
        let k = sym::pick(15);
        let (ext, b) = (k / 3, set_body(k % 3));
        let w = headed(ext, &b);
        let (doff, kind, channel) = (w[4], w[5], (w[6] as u16) << 8 | w[7] as u16);
        let end = w.len();
        let got = amqp(w);
        match got {
            Some(f) => {
                witness!("a frame was accepted");
                assert!(kind == 0, "frame of another type accepted");
                assert!(doff >= 2, "data offset inside the frame header accepted");
                assert!(doff as usize * 4 <= end, "data offset beyond the frame accepted");
                assert!(f.channel_id() == channel, "channel");
                if doff as usize * 4 == 8 + ext {
                    let same = match (k % 3, f.performative()) {
                        (0, Frame::Close(_)) | (1, Frame::Begin(_)) | (2, Frame::Detach(_)) => true,
                        _ => false,
                    };
                    assert!(same, "body of the frame");
                } else {
                    // no body, or one that happens to start elsewhere
                    assert!(doff as usize * 4 == end && *f.performative() == Frame::Empty, "body of the frame taken from elsewhere")
                }
            }
            None => {
                witness!("a frame was rejected");
                assert!(kind != 0 || doff as usize * 4 != 8 + ext, "a good frame was rejected");
                assert!(kind != 0 || doff as usize * 4 != end, "a good empty frame was rejected");
            }
        }
    }
    // @bound the same for two SASL bodies
    // @opts {"shards":10}
    c11_header_sasl {
        let k = sym::pick(10);
        let (ext, b) = (k / 2, body(3 + k % 2));
        let w = headed(ext, &b);
        let (doff, kind) = (w[4], w[5]);
        match sasl(w) {
            Some(f) => {
                witness!("a frame was accepted");
                assert!(kind == 1, "frame of another type accepted");
                assert!(doff as usize * 4 == 8 + ext, "body of the frame taken from elsewhere");
                let same = match (k % 2, f.body) {
                    (0, SaslFrameBody::SaslChallenge(_)) | (1, SaslFrameBody::SaslOutcome(_)) => true,
                    _ => false,
                };
                assert!(same, "body of the frame");
            }
            None => assert!(kind != 1 || doff as usize * 4 != 8 + ext, "a good frame was rejected"),
        }
    }
    // @bound AMQP frames with 0 to 8 free octets as body, then a good frame
    // @opts {"shards":9}
    c11_body {
        let n = sym::pick(9);
        let w = set(headed(0, &sym::octets(n)), 0);
        let b = w[8..].to_vec();
        match amqp(w) {
            Some(f) => {
                if n == 0 {
                    assert!(*f.performative() == Frame::Empty, "empty frame");
                } else {
                    witness!("a frame was accepted");
                    // descriptor of one octet and an empty or nearly empty list
                    assert!(b[0] == 0, "body without descriptor accepted");
                }
            }
            None => assert!(n > 0, "an empty frame was rejected"),
        }
    }
    // @bound SASL frames with 0 to 8 free octets as body, then a good frame
    // @opts {"shards":9}
    c11_body_sasl {
        let n = sym::pick(9);
        let w = set(headed(0, &sym::octets(n)), 1);
        let b = w[8..].to_vec();
        if let Some(_) = sasl(w) {
            witness!("a frame was accepted");
            assert!(n > 0, "empty SASL frame accepted");
            assert!(b[0] == 0, "body without descriptor accepted");
        }
    }
    // @bound a good body with 1 to 3 free octets after it, or 1 to 4 octets of its end cut off, in AMQP and SASL frames, then a good frame
    // @opts {"shards":5}
    c11_fill {
        let k = sym::pick(5);
        let mut b = body(k);
        let j = sym::pick(7);
        if j < 3 {
            b.extend_from_slice(&sym::octets(j + 1))
        } else {
            let n = b.len() - (j - 2);
            b.truncate(n)
        }
        let w = set(headed(0, &b), (k >= 3) as u8);
        if k < 3 {
            assert!(amqp(w).is_none(), "a body that does not fill its frame was accepted");
        } else {
            assert!(sasl(w).is_none(), "a body that does not fill its frame was accepted");
        }
    }
    // @bound each AMQP performative (but transfers) with all fields, any of its octets after the frame size replaced, then a good frame: accepted exactly if it fills the frame
    // @opts {"shards":8}
    c11_damaged {
        let mut w = sym::plain(|| vec![0u8; 0]);
        match sym::pick(8) {
            0 => w.extend(sym::plain(|| frame(0, &Open::draw(999, Mode::Poor, Mode::Poor)))),
            1 => w.extend(sym::plain(|| frame(0, &Begin::draw(999, Mode::Poor, Mode::Poor)))),
            2 => w.extend(sym::plain(|| frame(0, &Attach::draw(999, Mode::Bare, Mode::Bare)))),
            3 => w.extend(sym::plain(|| frame(0, &Flow::draw(999, Mode::Poor, Mode::Poor)))),
            4 => w.extend(sym::plain(|| frame(0, &Disposition::draw(999, Mode::Poor, Mode::Poor)))),
            5 => w.extend(sym::plain(|| frame(0, &Detach::draw(999, Mode::Poor, Mode::Poor)))),
            6 => w.extend(sym::plain(|| frame(0, &End::draw(999, Mode::Poor, Mode::Poor)))),
            _ => w.extend(sym::plain(|| frame(0, &Close::draw(999, Mode::Poor, Mode::Poor)))),
        }
        let k = sym::pick(w.len());
        sym::assume(k >= 4);
        w[k] = sym::u8();
        let b = w[8..].to_vec();
        let (doff, kind) = (w[4], w[5]);
        if let Some(f) = amqp(w) {
            assert!(kind == 0 && doff >= 2, "malformed frame accepted");
            if k >= 8 {
                // the list fills the rest of the frame
                assert!(b[3] == 0xc0 && b[4] as usize + 5 == b.len(), "a body that does not fill its frame was accepted");
                assert!(*f.performative() != Frame::Empty, "an empty frame out of a body");
            }
        }
    }
    // @bound frame sizes 0 to 7 with any octets after them: an error, nothing is delivered
    c11_size {
        let w = [0, 0, 0, sym::u8(), sym::u8(), sym::u8(), sym::u8(), sym::u8(), 0, 0];
        sym::assume(w[3] < 8);
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut buf = BytesMut::from(&w[..]);
        assert!(c.decode(&mut buf).is_err(), "size smaller than a frame header accepted");
        assert!(c.decode(&mut buf).is_err(), "the stream went on after a size no frame can have");
        let mut c = AmqpCodec::<SaslFrame>::new();
        let mut buf = BytesMut::from(&w[..]);
        assert!(c.decode(&mut buf).is_err(), "size smaller than a frame header accepted");
    }
    // @bound streams of up to three frames of 8 to 10 octets, good, malformed or with octets left over, in any order, fed at once or octet by octet
    // @opts {"shards":9}
    c11_sequence {
        let mut w = Vec::new();
        free_frame(8 + sym::pick(3), &mut w);
        free_frame(8 + sym::pick(3), &mut w);
        free_frame(9, &mut w);
        let mut c = AmqpCodec::<Raw>::new();
        let mut buf = BytesMut::new();
        let mut got = Vec::new();
        if sym::pick(2) == 0 {
            buf.extend_from_slice(&w);
            pump(&mut c, &mut buf, &mut got);
        } else {
            for x in w.iter() {
                buf.extend_from_slice(&[*x]);
                pump(&mut c, &mut buf, &mut got);
            }
        }
        assert!(buf.is_empty(), "octets left over");
        assert!(got == frames(&w).0, "frames after a rejected one differ from those in the stream");
        witness!(got[0] == Item::Rejected && got[1] == Item::Rejected && got[2] != Item::Rejected, "two frames were rejected");
    }
}
