//! C23: conversions and accessors preserve values.
use crate::each_composite;
use crate::fields::*;
use crate::sym;
use crate::texts::*;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{AmqpFrame, InMessage, OutMessage, SaslFrame};
use bytes::Bytes;
use hashbrown::HashMap;
use ordered_float::OrderedFloat;
use uuid::Uuid;

/// A dynamic value made of `v` reads as `v`.
macro_rules! back {
    ($k:ident, $v:expr) => {{
        let v = $v;
        match Variant::from(v.clone()) {
            Variant::$k(x) => assert!(x == v, "value changed by the conversion"),
            _ => panic!("converted to another kind"),
        }
    }};
}
/// Kinds a native value can be converted to.
const NATIVE: usize = 22;
fn native(k: usize) {
    match k {
        0 => back!(Boolean, sym::bool()),
        1 => back!(Ubyte, sym::u8()),
        2 => back!(Ushort, sym::u16()),
        3 => back!(Uint, sym::u32()),
        4 => back!(Ulong, sym::u64()),
        5 => back!(Byte, sym::i8()),
        6 => back!(Short, sym::i16()),
        7 => back!(Int, sym::i32()),
        8 => back!(Long, sym::i64()),
        9 => {
            let b = sym::u32();
            match Variant::from(OrderedFloat(f32::from_bits(b))) {
                Variant::Float(x) => assert!(x.to_bits() == b, "value changed by the conversion"),
                _ => panic!("converted to another kind"),
            }
        }
        10 => {
            let b = sym::u64();
            match Variant::from(OrderedFloat(f64::from_bits(b))) {
                Variant::Double(x) => assert!(x.to_bits() == b, "value changed by the conversion"),
                _ => panic!("converted to another kind"),
            }
        }
        11 => back!(Char, sym::char()),
        12 => {
            let t = Timestamp::any(Mode::Poor);
            match Variant::from(t) {
                Variant::Timestamp(x) => {
                    assert!(x.timestamp() == t.timestamp() && x.timestamp_subsec_nanos() == t.timestamp_subsec_nanos(), "value changed by the conversion")
                }
                _ => panic!("converted to another kind"),
            }
        }
        13 => back!(Uuid, Uuid::any(Mode::Poor)),
        14 => {
            let v = sym::octets(sym::pick(5));
            match Variant::from(Bytes::from(v.clone())) {
                Variant::Binary(x) => assert!(x[..] == v[..], "value changed by the conversion"),
                _ => panic!("converted to another kind"),
            }
        }
        15 => {
            let v = one_text(4);
            let x = match sym::pick(3) {
                0 => Variant::from(leak(&v)),
                1 => Variant::from(text(v.clone())),
                _ => Variant::from(stored(&v, sym::pick(4))),
            };
            match x {
                Variant::String(x) => shown(&x, &v),
                _ => panic!("converted to another kind"),
            }
        }
        16 => {
            let v = one_text(4);
            match Variant::from(Symbol(stored(&v, sym::pick(4)))) {
                Variant::Symbol(x) => shown(&x.0, &v),
                _ => panic!("converted to another kind"),
            }
        }
        17 => {
            let v = one_text(4);
            match Variant::from(StaticSymbol::from(leak(&v))) {
                Variant::StaticSymbol(x) => assert!(x.0.as_bytes() == &v[..], "value changed by the conversion"),
                _ => panic!("converted to another kind"),
            }
        }
        18 => {
            let l: Vec<Variant> = (0..sym::pick(4)).map(|_| element(1)).collect();
            match Variant::from(List(l.clone())) {
                Variant::List(x) => listed(&x, &l),
                _ => panic!("converted to another kind"),
            }
        }
        19 => {
            let mut m = HashMap::new();
            for i in 0..sym::pick(3) {
                m.insert(Variant::from(["k", "other"][i]), element(1));
            }
            let n = VariantMap::new(m.clone());
            assert!(n.map == m, "map changed");
            match Variant::from(n) {
                Variant::Map(x) => assert!(x.map == m, "value changed by the conversion"),
                _ => panic!("converted to another kind"),
            }
        }
        20 => {
            let (c, v) = (sym::u64(), element(1));
            match Variant::from((Descriptor::Ulong(c), Box::new(v.clone()))) {
                Variant::Described((Descriptor::Ulong(d), x)) => assert!(d == c && *x == v, "value changed by the conversion"),
                _ => panic!("converted to another kind"),
            }
        }
        _ => {
            let (c, v) = (one_text(3), element(1));
            match Variant::from((Descriptor::Symbol(Symbol(stored(&c, 1))), Box::new(v.clone()))) {
                Variant::Described((Descriptor::Symbol(d), x)) => assert!(d.as_bytes() == &c[..] && *x == v, "value changed by the conversion"),
                _ => panic!("converted to another kind"),
            }
        }
    }
}
/// Every way to look at a text.
fn shown(s: &Str, v: &[u8]) {
    assert!(s.as_bytes() == v && s.as_str().as_bytes() == v && s.len() == v.len(), "accessors of a text");
    let b = s.as_bytes_str();
    assert!(b.as_bytes() == v, "text as a string of its own");
    assert!(*s == *leak(v), "equality with the text");
}
fn symbol(s: &Symbol, v: &[u8]) {
    assert!(s.as_bytes() == v && s.as_str().as_bytes() == v && s.len() == v.len(), "accessors of a symbol");
    assert!(s.as_bytes_str().as_bytes() == v, "symbol as a string of its own");
    assert!(*s == *leak(v), "equality with the text");
    shown(&s.0, v)
}
fn listed(l: &List, v: &[Variant]) {
    assert!(l.len() == v.len() && l.is_empty() == v.is_empty(), "length of a list");
    let mut n = 0;
    for x in l.iter() {
        assert!(n < v.len() && *x == v[n], "elements of a list");
        n += 1
    }
    assert!(n == v.len(), "elements of a list");
}
/// What a dynamic value says of its text: only texts and symbols have one
/// (static symbols may).
fn textual(k: usize) {
    let v = value(k, 1);
    let w = one_text(2);
    let want = match &v {
        Variant::String(s) => Some(s.as_bytes().to_vec()),
        Variant::Symbol(s) => Some(s.as_bytes().to_vec()),
        Variant::StaticSymbol(s) => {
            let b = s.0.as_bytes();
            assert!(v.as_str().map_or(true, |x| x.as_bytes() == b), "text of a static symbol");
            assert!(v.as_bytes_str().map_or(true, |x| x.as_bytes() == b), "text of a static symbol");
            assert!(v != *leak(&w) || b == &w[..], "static symbol equal to another text");
            return;
        }
        _ => None,
    };
    match (v.as_str(), &want) {
        (Some(x), Some(y)) => assert!(x.as_bytes() == &y[..], "text of a dynamic value"),
        (None, None) => (),
        _ => panic!("text of a dynamic value without one, or lost"),
    }
    match (v.as_bytes_str(), &want) {
        (Some(x), Some(y)) => assert!(x.as_bytes() == &y[..], "text of a dynamic value as a string of its own"),
        (None, None) => (),
        _ => panic!("text of a dynamic value without one, or lost"),
    }
    let e = want.map_or(false, |y| y == w);
    assert!((v == *leak(&w)) == e && (v != *leak(&w)) == !e, "equality of a dynamic value with a text");
    if k == 16 || k == 17 {
        sym::reach(if e { "equal to the text" } else { "different from the text" })
    }
}
fn accessors<T: Composite>() {
    one_free::<T>().accessors()
}
fn accessors_all<T: Composite>() {
    presence::<T>().accessors()
}
/// Performatives in frames.
fn performative<T: InFrame<Union = Frame> + Clone + PartialEq>()
where
    Frame: From<T>,
{
    let v = T::draw(999, Mode::Poor, Mode::Poor);
    let f = Frame::from(v.clone());
    assert!(f.name() == T::LABEL, "name of the performative");
    let channel = sym::u16();
    let a = AmqpFrame::new(channel, f);
    assert!(a.channel_id() == channel, "channel of the frame");
    assert!(a.performative().name() == T::LABEL, "performative of the frame");
    let (c, f) = a.into_parts();
    assert!(c == channel, "channel of the frame");
    match T::unwrap(f) {
        Some(x) => assert!(x == v, "performative of the frame changed"),
        None => panic!("performative of the frame became another"),
    }
}
fn sasl<T: InFrame<Union = SaslFrameBody> + Clone + PartialEq>()
where
    SaslFrame: From<T>,
{
    let v = T::draw(999, Mode::Poor, Mode::Poor);
    match T::unwrap(SaslFrame::from(v.clone()).body) {
        Some(x) => assert!(x == v, "body of the frame changed"),
        None => panic!("body of the frame became another"),
    }
    match T::unwrap(SaslFrame::new(v.clone().wrap()).body) {
        Some(x) => assert!(x == v, "body of the frame changed"),
        None => panic!("body of the frame became another"),
    }
}

harnesses! {
    // @bound every native value of every kind that converts to a dynamic value: all numbers, characters, uuids, octets of 0-4, texts and symbols of 0-4 octets stored in every way, timestamps, lists of 0-3, maps of 0-2 entries, described values
    // @opts {"shards":4}
    c23_native {
        native(sym::pick(NATIVE))
    }
    // @bound dynamic values of 24 kinds with free contents (nested one level) against texts of 0-2 octets
    // @opts {"shards":4}
    c23_textual {
        textual(sym::pick(KINDS))
    }
    // @bound texts and symbols of 0-6 octets, and of one character of any width, by every conversion
    // @opts {"shards":4}
    c23_text {
        let v = if sym::pick(2) == 0 { one_text(6) } else { sym::char().to_string().into_bytes() };
        match sym::pick(9) {
            0 => shown(&Str::from(leak(&v)), &v),
            1 => shown(&Str::from(text(v.clone())), &v),
            2 => shown(&Str::from_str(leak(&v)), &v),
            3 => shown(&stored(&v, 3), &v),
            4 => symbol(&Symbol::from(leak(&v)), &v),
            5 => symbol(&Symbol::from(text(v.clone())), &v),
            6 => symbol(&Symbol::from_slice(leak(&v)), &v),
            7 => symbol(&Symbol(stored(&v, 3)), &v),
            _ => assert!(StaticSymbol::from(leak(&v)).0.as_bytes() == &v[..], "text of a static symbol"),
        }
    }
    // @bound texts of 0-6 octets in a text or symbol: the string taken from it has the same octets after both are taken apart
    c23_text_kept {
        let v = one_text(6);
        let s = stored(&v, sym::pick(4));
        let b = s.as_bytes_str();
        let t = Str::from(b.clone());
        assert!(s == t && t == s, "string of its own differs from the text");
        std::mem::drop(s);
        shown(&t, &v);
        let y = Symbol::from(b);
        std::mem::drop(t);
        symbol(&y, &v)
    }
    // @bound every number, every uuid, octets and texts of 0-4, as message identifiers
    c23_message_id {
        match sym::pick(4) {
            0 => {
                let v = sym::u64();
                assert!(MessageId::from(v) == MessageId::Ulong(v), "message id of a number")
            }
            1 => {
                let v = Uuid::any(Mode::Poor);
                match MessageId::from(v) {
                    MessageId::Uuid(x) => assert!(x.as_bytes() == v.as_bytes(), "message id of a uuid"),
                    _ => panic!("message id of another kind"),
                }
            }
            2 => {
                let v = sym::octets(sym::pick(5));
                match MessageId::from(Bytes::from(v.clone())) {
                    MessageId::Binary(x) => assert!(x[..] == v[..], "message id of octets"),
                    _ => panic!("message id of another kind"),
                }
            }
            _ => {
                let v = one_text(4);
                match MessageId::from(text(v.clone())) {
                    MessageId::String(x) => assert!(x.as_bytes() == &v[..], "message id of a text"),
                    _ => panic!("message id of another kind"),
                }
            }
        }
    }
    // @bound every standard error and custom symbols of 0-3 octets, as error conditions
    c23_condition {
        match sym::pick(5) {
            0 => {
                let e = AmqpError::any(Mode::Rich);
                assert!(ErrorCondition::from(e) == ErrorCondition::AmqpError(e), "condition of an error")
            }
            1 => {
                let e = ConnectionError::any(Mode::Rich);
                assert!(ErrorCondition::from(e) == ErrorCondition::ConnectionError(e), "condition of an error")
            }
            2 => {
                let e = SessionError::any(Mode::Rich);
                assert!(ErrorCondition::from(e) == ErrorCondition::SessionError(e), "condition of an error")
            }
            3 => {
                let e = LinkError::any(Mode::Rich);
                assert!(ErrorCondition::from(e) == ErrorCondition::LinkError(e), "condition of an error")
            }
            _ => {
                let v = one_text(3);
                match ErrorCondition::from(Symbol(stored(&v, 1))) {
                    ErrorCondition::Custom(s) => symbol(&s, &v),
                    _ => panic!("condition of another kind"),
                }
            }
        }
    }
    // @bound octets of 0-4, and messages of either type with such data and any number as message format, as transfer payloads
    c23_payload {
        let v = sym::octets(sym::pick(5));
        let format = if sym::pick(2) == 0 { None } else { Some(sym::u32()) };
        match sym::pick(3) {
            0 => match TransferBody::from(Bytes::from(v.clone())) {
                TransferBody::Data(d) => assert!(d[..] == v[..], "payload changed"),
                _ => panic!("payload of another kind"),
            },
            1 => {
                let mut m = InMessage::with_body(Bytes::from(v));
                m.message_format = format;
                let b = TransferBody::from(m.clone());
                assert!(b.message_format() == format, "message format of the payload");
                match b {
                    TransferBody::MessageIn(x) => assert!(x == m, "payload changed"),
                    _ => panic!("payload of another kind"),
                }
            }
            _ => {
                let mut m = OutMessage::with_body(Bytes::from(v));
                m.message_format = format;
                let b = TransferBody::from(m.clone());
                assert!(b.message_format() == format, "message format of the payload");
                match b {
                    TransferBody::MessageOut(x) => assert!(x == m, "payload changed"),
                    _ => panic!("payload of another kind"),
                }
            }
        }
    }
    // @bound lists and multiple values of 0-4 elements with free contents: length, emptiness, elements in order, indexing, growing
    c23_several {
        let v: Vec<u8> = sym::octets(sym::pick(5));
        let l: Vec<Variant> = v.iter().map(|x| Variant::Ubyte(*x)).collect();
        listed(&List(l.clone()), &l);
        let mut m = Multiple::from(v.clone());
        assert!(m.len() == v.len() && m.is_empty() == v.is_empty(), "length of a multiple value");
        assert!(m.iter().count() == v.len() && m.iter().zip(v.iter()).all(|(a, b)| a == b), "elements of a multiple value");
        assert!(m[..] == v[..] && m.first() == v.first(), "elements of a multiple value");
        let x = sym::u8();
        m.push(x);
        assert!(m.len() == v.len() + 1 && !m.is_empty() && m.iter().last() == Some(&x), "multiple value with an element more");
        assert!(Multiple::<u8>::default().is_empty() && Multiple::<u8>::default().len() == 0, "default multiple value");
        let mut p = VecVariantMap::default();
        assert!(p.is_empty(), "default properties");
        for (i, x) in l.iter().enumerate() {
            p.push((Str::from(["a", "b", "a", "c"][i]), x.clone()))
        }
        assert!(p.len() == l.len() && p.iter().zip(l.iter()).enumerate().all(|(i, (a, b))| a.0 == *["a", "b", "a", "c"][i] && a.1 == *b), "properties in order")
    }
    // @bound every accessor of the 24 composites: each field in turn in every structure, the others present or absent
    // @opts {"shards":8}
    c23_accessors {
        each_composite!(sym::pick(COMPOSITES), accessors)
    }
    // @bound every accessor of the composites but Attach and Transfer: every combination of absent and present optional fields, values free
    // @opts {"shards":8}
    c23_accessors_all {
        let k = sym::pick(COMPOSITES);
        // more than ten optional fields
        sym::assume(k != 3 && k != 5);
        each_composite!(k, accessors_all)
    }
    // @bound every performative with all fields, any channel: from the performative to the frame and back, its name
    c23_frames {
        match sym::pick(10) {
            0 => performative::<Open>(),
            1 => performative::<Begin>(),
            2 => performative::<Attach>(),
            3 => performative::<Flow>(),
            4 => performative::<Transfer>(),
            5 => performative::<Disposition>(),
            6 => performative::<Detach>(),
            7 => performative::<End>(),
            8 => performative::<Close>(),
            _ => {
                let f = AmqpFrame::new(sym::u16(), Frame::Empty);
                assert!(f.performative().name() == "Empty" && f.into_parts().1 == Frame::Empty, "empty frame")
            }
        }
    }
    // @bound every SASL body with all fields: from the body to the frame and back
    c23_sasl {
        match sym::pick(5) {
            0 => sasl::<SaslMechanisms>(),
            1 => sasl::<SaslInit>(),
            2 => sasl::<SaslChallenge>(),
            3 => sasl::<SaslResponse>(),
            _ => sasl::<SaslOutcome>(),
        }
    }
    // @bound a transfer with each payload, or none: its accessor
    c23_transfer_body {
        let v = sym::octets(2);
        let body = match sym::pick(4) {
            0 => None,
            1 => Some(TransferBody::Data(Bytes::from(v))),
            2 => Some(TransferBody::MessageIn(InMessage::with_body(Bytes::from(v)))),
            _ => Some(TransferBody::MessageOut(OutMessage::with_body(Bytes::from(v)))),
        };
        let t = Transfer { body: body.clone(), ..Transfer::draw(999, Mode::Bare, Mode::Bare) };
        assert!(t.body() == body.as_ref(), "payload of a transfer")
    }
}
