//! C19: announced message sizes are never stale.
use crate::messages::*;
use crate::spec::{buffer, enc, whole};
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{Decode, Encode, InMessage, OutMessage};
use bytes::Bytes;

/// One operation on a message and its contents.
#[derive(Clone)]
struct Op {
    kind: usize,
    id: MessageId,
    text: ByteStr,
    data: Bytes,
}
/// The first operations leave the message alone.
const LOOKS: usize = 3;
const KINDS: usize = 16;
fn op(kind: usize) -> Op {
    Op {
        kind,
        id: MessageId::Ulong(sym::u64()),
        text: crate::fields::text(sym::text(3).into_bytes()),
        data: Bytes::from(sym::octets(2)),
    }
}
fn some_header() -> Header {
    Header { durable: true, priority: 4, ttl: None, first_acquirer: false, delivery_count: 0 }
}

macro_rules! message {
    ($m:ident, $t:ident, $wrap:ident) => {
        mod $m {
            use super::*;
            fn start(k: usize) -> $t {
                match k {
                    0 => $t::default(),
                    1 => $t::with_body(Bytes::from_static(b"body")),
                    2 => $t::with_messages(vec![TransferBody::Data(Bytes::from_static(b"one")), TransferBody::$wrap($t::default().set_value(7u8))]),
                    _ => {
                        // every section
                        let mut w = Vec::new();
                        sym::plain(|| Parts::draw(63, 99).body(3)).write(&mut w, false);
                        whole($t::decode(&w))
                    }
                }
            }
            fn apply(m: $t, o: &Op, twin: bool) -> $t {
                match o.kind {
                    0 => {
                        if !twin {
                            let n = m.encoded_size();
                            assert!(m.encoded_size() == n, "size differs when asked for again");
                        }
                        m
                    }
                    1 => {
                        if twin {
                            return m;
                        }
                        let n = m.encoded_size();
                        let c = m.clone();
                        assert!(c == m && c.encoded_size() == n, "copy of a message");
                        c
                    }
                    2 => {
                        if !twin {
                            let mut b = buffer(512);
                            m.encode(&mut b);
                            assert!(m.encoded_size() == b.len(), "size asked for after encoding");
                        }
                        m
                    }
                    3 => m.set_header(some_header()),
                    4 => m.set_header(Header { ttl: Some(300), ..some_header() }),
                    5 => m.set_properties(|p| p.message_id = Some(o.id.clone())),
                    6 => m.set_properties(|p| {
                        p.subject = Some(o.text.clone());
                        p.message_id = None
                    }),
                    7 => m.set_app_property("a", Variant::from(o.text.clone())),
                    8 => m.set_app_property("bb", 5u8),
                    9 => m.set_value(Variant::from(o.text.clone())),
                    10 => m.set_value(Variant::Null),
                    11 => m.set_body(|b| b.set_data(o.data.clone())),
                    12 => m.set_body(|b| {
                        b.data.clear();
                        b.sequence.push(List(vec![Variant::Ubyte(1)]));
                        b.messages.push(TransferBody::Data(o.data.clone()))
                    }),
                    13 => m.set_body(|b| {
                        // a nested message whose size was asked for before the last change
                        let n = $t::with_body(o.data.clone());
                        if !twin {
                            n.encoded_size();
                        }
                        b.messages = vec![TransferBody::$wrap(n.set_properties(|p| p.subject = Some(o.text.clone())))]
                    }),
                    14 => m.update(|m| {
                        if !twin {
                            m.encoded_size();
                        }
                        m.set_header(some_header())
                    }),
                    _ => m.if_some(&Some(o.text.clone()), |m, t| {
                        if !twin {
                            m.encoded_size();
                        }
                        m.set_properties(|p| p.to = Some(t.clone()))
                    }).if_some(&None, |m, _: &u8| m.set_value(0u8)),
                }
            }
            fn judge(m: $t, twin: $t) {
                assert!(m == twin && twin == m, "message differs from one whose size was never asked for");
                let e = enc(&m);
                assert!(m == twin && twin == m, "message differs from one whose size was never asked for");
                let mut b = buffer(512);
                twin.encode(&mut b);
                assert!(e == b, "encoding differs from that of a message whose size was never asked for");
                assert!(twin.encoded_size() == b.len(), "size asked for after encoding");
                assert!(enc(&m) == b, "encoding differs the second time");
            }
            pub fn history(len: usize, looks: bool) {
                let s = sym::pick(4);
                let mut m = start(s);
                let mut twin = start(s);
                for _ in 0..len {
                    // between two changes the size is asked for, or not
                    if looks {
                        let l = op(sym::pick(LOOKS));
                        m = apply(m, &l, false);
                        let o = op(LOOKS + sym::pick(KINDS - LOOKS));
                        m = apply(m, &o, false);
                        twin = apply(twin, &o, true)
                    } else {
                        let o = op(sym::pick(KINDS));
                        m = apply(m, &o, false);
                        twin = apply(twin, &o, true)
                    }
                }
                judge(m, twin)
            }
            /// Two copies of one message go different ways.
            pub fn copies() {
                let s = sym::pick(4);
                let m = start(s);
                if sym::pick(2) == 0 {
                    m.encoded_size();
                }
                let o = op(LOOKS + sym::pick(KINDS - LOOKS));
                let changed = apply(m.clone(), &o, false);
                judge(changed, apply(start(s), &o, true));
                judge(m, start(s))
            }
            /// A message in a transfer, of a frame.
            pub fn carried() {
                let m = start(sym::pick(4));
                if sym::pick(2) == 0 {
                    m.encoded_size();
                }
                let m = apply(m, &op(LOOKS + sym::pick(KINDS - LOOKS)), false);
                let b = TransferBody::$wrap(m.clone());
                let e = enc(&m);
                assert!(b.len() == e.len(), "length of a transfer body");
                assert!(enc(&b) == e, "encoding of a transfer body");
            }
        }
    };
}
message!(incoming, InMessage, MessageIn);
message!(outgoing, OutMessage, MessageOut);

harnesses! {
    // @bound every sequence of 3 operations out of 16 (asking for the size, copying, encoding; every setter with free contents) on a fresh, given, nested or decoded incoming message
    // @opts {"shards":8,"weight":2}
    c19_in {
        incoming::history(3, false)
    }
    // @bound the same for outgoing messages
    // @opts {"shards":8,"weight":2}
    c19_out {
        outgoing::history(3, false)
    }
    // @bound two changes out of 13, before each of them the size is asked for in one of three ways; incoming messages
    // @opts {"shards":4,"weight":2}
    c19_in_looks {
        incoming::history(2, true)
    }
    // @bound the same for outgoing messages
    // @opts {"shards":4,"weight":2}
    c19_out_looks {
        outgoing::history(2, true)
    }
    // @bound every sequence of 4 operations out of 16 on an incoming message
    // @opts {"shards":64,"weight":2}
    c19_in_t {
        incoming::history(4, false)
    }
    // @bound every sequence of 4 operations out of 16 on an outgoing message
    // @opts {"shards":64,"weight":2}
    c19_out_t {
        outgoing::history(4, false)
    }
    // @bound a copy is changed by any of 13 changes, the original is not
    c19_copies {
        if sym::pick(2) == 0 { incoming::copies() } else { outgoing::copies() }
    }
    // @bound a message changed in any of 13 ways as the body of a transfer
    c19_carried {
        if sym::pick(2) == 0 { incoming::carried() } else { outgoing::carried() }
    }
}
