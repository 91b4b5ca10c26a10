//! C10: frames come out of the stream the same however it is split.
use crate::fields::*;
use crate::frames::*;
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::{AmqpCodec, AmqpFrame};
use bytes::BytesMut;

/// Feed `w` in the given pieces; after each piece exactly the frames complete
/// by then have come out.
fn pieces(w: &[u8], ends: &[usize]) {
    let mut c = AmqpCodec::<Raw>::new();
    let mut buf = BytesMut::new();
    let mut got = Vec::new();
    let mut p = 0;
    for e in ends {
        buf.extend_from_slice(&w[p..*e]);
        p = *e;
        let stuck = pump(&mut c, &mut buf, &mut got);
        let (want, used) = frames(&w[..p]);
        assert!(got.len() <= want.len(), "a frame was delivered before its last octet");
        assert!(got.len() == want.len(), "a complete frame was not delivered");
        assert!(got == want, "frames differ from those in the stream");
        witness!(got.len() > 1, "two frames were delivered");
        if stuck {
            return;
        }
        // of an incomplete frame at most the size has been taken
        let left = p - used;
        assert!(buf.len() == left || buf.len() + 4 == left, "octets of the next frame are missing");
        let n = buf.len();
        assert!(buf[..] == w[p - n..p], "unread octets differ from the stream");
    }
    // nothing else is there
    let (rest, seen) = (buf.clone(), got.len());
    pump(&mut c, &mut buf, &mut got);
    assert!(got.len() == seen && buf == rest, "a frame out of nothing");
    // the same at once
    let mut all = BytesMut::from(w);
    let mut c = AmqpCodec::<Raw>::new();
    let mut once = Vec::new();
    pump(&mut c, &mut all, &mut once);
    assert!(once == got, "frames depend on how the stream is split");
    assert!(all == buf, "unread octets depend on how the stream is split");
}
fn two(tail: usize) -> Vec<u8> {
    let mut w = Vec::new();
    free_frame(8 + sym::pick(4), &mut w);
    free_frame(8 + sym::pick(3), &mut w);
    for _ in 0..tail {
        w.push(sym::u8())
    }
    w
}
fn body<T: Composite>() -> T {
    sym::plain(|| T::draw(999, Mode::Poor, Mode::Poor))
}
fn amqp(k: usize) -> Vec<u8> {
    match k {
        0 => frame(0, &body::<Open>()),
        1 => frame(0, &body::<Begin>()),
        2 => frame(0, &body::<Attach>()),
        3 => frame(0, &body::<Flow>()),
        4 => {
            let mut w = frame(0, &body::<Transfer>());
            w.extend_from_slice(&[sym::u8(), sym::u8()]);
            let n = w.len();
            w[3] = n as u8;
            w
        }
        5 => frame(0, &body::<Disposition>()),
        6 => frame(0, &body::<Detach>()),
        7 => frame(0, &body::<End>()),
        8 => frame(0, &body::<Close>()),
        _ => vec![0, 0, 0, 8, 2, 0, sym::u8(), sym::u8()],
    }
}
/// Performatives in two pieces against the same at once.
fn real(w: &[u8], cut: usize) {
    let mut whole = Vec::new();
    let mut buf = BytesMut::from(w);
    pump_amqp(&mut AmqpCodec::<AmqpFrame>::new(), &mut buf, &mut whole);
    assert!(buf.is_empty(), "octets left after complete frames");
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut split = Vec::new();
    let mut buf = BytesMut::from(&w[..cut]);
    pump_amqp(&mut c, &mut buf, &mut split);
    let early = split.len();
    buf.extend_from_slice(&w[cut..]);
    pump_amqp(&mut c, &mut buf, &mut split);
    assert!(buf.is_empty(), "octets left after complete frames");
    assert!(whole.len() == 2 && split.len() == 2, "a complete frame was not delivered");
    let first = (w[2] as usize) << 8 | w[3] as usize;
    assert!(early == (cut >= first) as usize + (cut == w.len()) as usize, "a frame was delivered before its last octet");
    for i in 0..2 {
        match (&whole[i], &split[i]) {
            (Ok(a), Ok(b)) => assert!(a == b, "frame depends on how the stream is split"),
            _ => panic!("a frame was rejected"),
        }
    }
}

harnesses! {
    // @bound two frames of 8 to 11 and 8 to 10 octets, all free but the size, and two octets; every way of cutting the stream into three pieces
    // @opts {"shards":12}
    c10_three_pieces {
        let w = two(2);
        let n = w.len() + 1;
        let k = sym::pick(n * n);
        let (i, j) = (k / n, k % n);
        sym::assume(i <= j);
        pieces(&w, &[i, j, w.len()])
    }
    // @bound the same octet by octet, up to 10 more octets, which may be a third frame of any size
    // @opts {"shards":12}
    c10_octets {
        let mut w = two(0);
        let n = sym::pick(11);
        w.extend_from_slice(&sym::octets(n));
        let ends: Vec<usize> = (1..=w.len()).collect();
        pieces(&w, &ends)
    }
    // @bound the same in pieces of 2 to 7 octets
    // @opts {"shards":12}
    c10_chunks {
        let mut w = two(0);
        w.extend_from_slice(&sym::octets(10));
        let k = 2 + sym::pick(6);
        let mut ends: Vec<usize> = (1..).map(|i| i * k).take_while(|e| *e < w.len()).collect();
        ends.push(w.len());
        pieces(&w, &ends)
    }
    // @bound 0 to 16 free octets, frame sizes included, in two pieces cut anywhere
    // @opts {"shards":17}
    c10_free {
        let w = sym::octets(sym::pick(17));
        let i = sym::pick(w.len() + 1);
        pieces(&w, &[i, w.len()])
    }
    // @bound frames of 31 to 33, 4095 to 4097, 8192, 32767 to 32769 and 70000 octets followed by one of 9, cut around the header, in the middle and around the end, or in pieces of 1000, 4096 and 32768 octets
    // @opts {"shards":11,"keep":100000}
    c10_long {
        let size = [31, 32, 33, 4095, 4096, 4097, 8192, 32767, 32768, 32769, 70000][sym::pick(11)];
        let mut w = Vec::new();
        free_frame(size, &mut w);
        free_frame(9, &mut w);
        let n = w.len();
        let ends: Vec<usize> = match sym::pick(4) {
            0 => {
                let at = [3, 4, 7, 8, 9, size / 2, size - 1, size, size + 1, size + 4, size + 8][sym::pick(11)];
                vec![at, n]
            }
            k => {
                let step = [1000, 4096, 32768][k - 1];
                let mut e: Vec<usize> = (1..).map(|i| i * step).take_while(|e| *e < n).collect();
                e.push(n);
                e
            }
        };
        pieces(&w, &ends)
    }
    // @bound each performative followed by another, all fields present, free channels and payload, cut anywhere
    // @opts {"shards":10}
    c10_performatives {
        let k = sym::pick(10);
        let mut w = amqp(k);
        w.extend(amqp((k + 1) % 10));
        let cut = sym::pick(w.len() + 1);
        real(&w, cut)
    }
}
