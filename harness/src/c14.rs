//! C14: the wire form of a performative is the specified one, and every
//! specified wire form of a performative is understood.
use crate::fields::*;
use crate::spec::{buffer, enc, ok, whole, R};
use crate::sym;
use crate::each_composite;
use amqp_codec::protocol::*;
use amqp_codec::{AmqpFrame, Decode, Encode, SaslFrame};

/// Frame header: size, data offset, type, channel.
fn header(r: &mut R, kind: u8, channel: u16) {
    let n = r.b.len();
    assert!(r.be32() as usize == n, "size field of the frame");
    assert!(r.u8() == 2, "data offset of the frame");
    assert!(r.u8() == kind, "type of the frame");
    assert!(r.be16() == channel, "channel of the frame");
}
fn amqp_layout<T: InFrame<Union = Frame>>(v: T) {
    let ch = sym::u16();
    let e = enc(&AmqpFrame::new(ch, v.clone().wrap()));
    let mut r = R::new(&e);
    header(&mut r, 0, ch);
    v.check(&mut r);
    r.end();
}
fn sasl_layout<T: InFrame<Union = SaslFrameBody>>(v: T) {
    let e = enc(&SaslFrame::new(v.clone().wrap()));
    let mut r = R::new(&e);
    header(&mut r, 1, 0);
    v.check(&mut r);
    r.end();
}
fn part_layout<T: Composite>(v: T) {
    let e = enc(&v);
    let mut r = R::new(&e);
    v.check(&mut r);
    r.end();
}

/// A value and one of its wire forms: one field in every structure and every
/// form, or every form of the composite header.
fn forms<T: Composite>() -> (T, Vec<u8>) {
    let k = sym::pick(T::N + 1);
    let mut w = Vec::new();
    if k == T::N {
        let v = T::draw(999, Mode::Poor, Mode::Poor);
        composite_write(&v, &mut w, T::N, 999, true);
        (v, w)
    } else {
        let v = T::draw(k, Mode::Rich, Mode::Bare);
        composite_write(&v, &mut w, T::N, k, false);
        (v, w)
    }
}
fn amqp_forms<T: InFrame<Union = Frame>>() {
    let (v, w) = forms::<T>();
    match T::unwrap(whole(Frame::decode(&w))) {
        Some(d) => same(v, d),
        None => panic!("decoded as another performative"),
    }
}
fn sasl_forms<T: InFrame<Union = SaslFrameBody>>() {
    let (v, w) = forms::<T>();
    match T::unwrap(whole(SaslFrameBody::decode(&w))) {
        Some(d) => same(v, d),
        None => panic!("decoded as another performative"),
    }
}
fn part_forms<T: Composite>() {
    let (v, mut w) = forms::<T>();
    // octets that follow belong to somebody else
    let tail = sym::u8();
    w.push(tail);
    let (rest, d) = ok(T::decode(&w));
    assert!(rest.len() == 1 && rest[0] == tail, "octets after the composite");
    same(v, d)
}
fn same<T: Composite>(v: T, d: T) {
    for i in 0..T::N {
        assert!(v.equal(i, &d), "decoded field differs from the encoded one");
    }
    assert!(d == v, "decoded value differs from the encoded one");
}
fn wide_part_layout<T: Composite>() {
    part_layout(wide::<T>())
}
fn large_layout<T: Composite>() {
    part_layout(large::<T>())
}

harnesses! {
    // @bound each of 24 composite types as encoded, each variable-width field in turn having 2-300 octets, texts of two-octet characters
    // @opts {"shards":24}
    c14_wide {
        each_composite!(sym::pick(COMPOSITES), wide_part_layout)
    }
    // @bound each of 24 composite types as encoded, each variable-width field in turn having 65500, 65536 or 70000 octets
    // @opts {"shards":24}
    c14_large {
        each_composite!(sym::pick(COMPOSITES), large_layout)
    }
    // @bound the empty frame, any channel
    c14_empty {
        let ch = sym::u16();
        let e = enc(&AmqpFrame::new(ch, Frame::Empty));
        let mut r = R::new(&e);
        header(&mut r, 0, ch);
        r.end();
        let d: AmqpFrame = whole(AmqpFrame::decode(&e[4..]));
        assert!(d.channel_id() == ch && *d.performative() == Frame::Empty, "empty frame changed");
        let mut b = buffer(0);
        Frame::Empty.encode(&mut b);
        assert!(b.len() == 0 && Frame::Empty.encoded_size() == 0, "empty frame has a body");
    }
    // @bound Open as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_open_layout {
        amqp_layout(one_free::<Open>())
    }
    // @bound Open as encoded: every combination of absent and present optional fields, values free
    c14_open_layout_presence {
        amqp_layout(presence::<Open>())
    }
    // @bound Open as encoded: encodings of 257..=266 octets (list8/list32)
    c14_open_layout_boundary {
        amqp_layout(boundary::<Open>())
    }
    // @bound Open as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_open_forms {
        amqp_forms::<Open>()
    }
    // @bound Begin as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_begin_layout {
        amqp_layout(one_free::<Begin>())
    }
    // @bound Begin as encoded: every combination of absent and present optional fields, values free
    c14_begin_layout_presence {
        amqp_layout(presence::<Begin>())
    }
    // @bound Begin as encoded: encodings of 257..=266 octets (list8/list32)
    c14_begin_layout_boundary {
        amqp_layout(boundary::<Begin>())
    }
    // @bound Begin as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_begin_forms {
        amqp_forms::<Begin>()
    }
    // @bound Attach as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    // @opts {"shards":14,"weight":9}
    c14_attach_layout {
        amqp_layout(one_free::<Attach>())
    }
    // @bound Attach as encoded: every combination of absent and present optional fields, values free
    c14_attach_layout_presence {
        amqp_layout(presence::<Attach>())
    }
    // @bound Attach as encoded: encodings of 257..=266 octets (list8/list32)
    c14_attach_layout_boundary {
        amqp_layout(boundary::<Attach>())
    }
    // @bound Attach as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    // @opts {"shards":15,"weight":9}
    c14_attach_forms {
        amqp_forms::<Attach>()
    }
    // @bound Flow as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_flow_layout {
        amqp_layout(one_free::<Flow>())
    }
    // @bound Flow as encoded: every combination of absent and present optional fields, values free
    c14_flow_layout_presence {
        amqp_layout(presence::<Flow>())
    }
    // @bound Flow as encoded: encodings of 257..=266 octets (list8/list32)
    c14_flow_layout_boundary {
        amqp_layout(boundary::<Flow>())
    }
    // @bound Flow as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_flow_forms {
        amqp_forms::<Flow>()
    }
    // @bound Transfer as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    // @opts {"weight":5}
    c14_transfer_layout {
        amqp_layout(one_free::<Transfer>())
    }
    // @bound Transfer as encoded: every combination of absent and present optional fields, values free
    c14_transfer_layout_presence {
        amqp_layout(presence::<Transfer>())
    }
    // @bound Transfer as encoded: encodings of 257..=266 octets (list8/list32)
    c14_transfer_layout_boundary {
        amqp_layout(boundary::<Transfer>())
    }
    // @bound Transfer as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_transfer_forms {
        amqp_forms::<Transfer>()
    }
    // @bound Disposition as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_disposition_layout {
        amqp_layout(one_free::<Disposition>())
    }
    // @bound Disposition as encoded: every combination of absent and present optional fields, values free
    c14_disposition_layout_presence {
        amqp_layout(presence::<Disposition>())
    }
    // @bound Disposition as encoded: encodings of 257..=266 octets (list8/list32)
    c14_disposition_layout_boundary {
        amqp_layout(boundary::<Disposition>())
    }
    // @bound Disposition as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_disposition_forms {
        amqp_forms::<Disposition>()
    }
    // @bound Detach as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_detach_layout {
        amqp_layout(one_free::<Detach>())
    }
    // @bound Detach as encoded: every combination of absent and present optional fields, values free
    c14_detach_layout_presence {
        amqp_layout(presence::<Detach>())
    }
    // @bound Detach as encoded: encodings of 257..=266 octets (list8/list32)
    c14_detach_layout_boundary {
        amqp_layout(boundary::<Detach>())
    }
    // @bound Detach as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_detach_forms {
        amqp_forms::<Detach>()
    }
    // @bound End as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_end_layout {
        amqp_layout(one_free::<End>())
    }
    // @bound End as encoded: every combination of absent and present optional fields, values free
    c14_end_layout_presence {
        amqp_layout(presence::<End>())
    }
    // @bound End as encoded: encodings of 257..=266 octets (list8/list32)
    c14_end_layout_boundary {
        amqp_layout(boundary::<End>())
    }
    // @bound End as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_end_forms {
        amqp_forms::<End>()
    }
    // @bound Close as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_close_layout {
        amqp_layout(one_free::<Close>())
    }
    // @bound Close as encoded: every combination of absent and present optional fields, values free
    c14_close_layout_presence {
        amqp_layout(presence::<Close>())
    }
    // @bound Close as encoded: encodings of 257..=266 octets (list8/list32)
    c14_close_layout_boundary {
        amqp_layout(boundary::<Close>())
    }
    // @bound Close as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_close_forms {
        amqp_forms::<Close>()
    }
    // @bound SaslMechanisms as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_mechanisms_layout {
        sasl_layout(one_free::<SaslMechanisms>())
    }
    // @bound SaslMechanisms as encoded: every combination of absent and present optional fields, values free
    c14_mechanisms_layout_presence {
        sasl_layout(presence::<SaslMechanisms>())
    }
    // @bound SaslMechanisms as encoded: encodings of 257..=266 octets (list8/list32)
    c14_mechanisms_layout_boundary {
        sasl_layout(boundary::<SaslMechanisms>())
    }
    // @bound SaslMechanisms as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_mechanisms_forms {
        sasl_forms::<SaslMechanisms>()
    }
    // @bound SaslInit as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_init_layout {
        sasl_layout(one_free::<SaslInit>())
    }
    // @bound SaslInit as encoded: every combination of absent and present optional fields, values free
    c14_init_layout_presence {
        sasl_layout(presence::<SaslInit>())
    }
    // @bound SaslInit as encoded: encodings of 257..=266 octets (list8/list32)
    c14_init_layout_boundary {
        sasl_layout(boundary::<SaslInit>())
    }
    // @bound SaslInit as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_init_forms {
        sasl_forms::<SaslInit>()
    }
    // @bound SaslChallenge as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_challenge_layout {
        sasl_layout(one_free::<SaslChallenge>())
    }
    // @bound SaslChallenge as encoded: every combination of absent and present optional fields, values free
    c14_challenge_layout_presence {
        sasl_layout(presence::<SaslChallenge>())
    }
    // @bound SaslChallenge as encoded: encodings of 257..=266 octets (list8/list32)
    c14_challenge_layout_boundary {
        sasl_layout(boundary::<SaslChallenge>())
    }
    // @bound SaslChallenge as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_challenge_forms {
        sasl_forms::<SaslChallenge>()
    }
    // @bound SaslResponse as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_response_layout {
        sasl_layout(one_free::<SaslResponse>())
    }
    // @bound SaslResponse as encoded: every combination of absent and present optional fields, values free
    c14_response_layout_presence {
        sasl_layout(presence::<SaslResponse>())
    }
    // @bound SaslResponse as encoded: encodings of 257..=266 octets (list8/list32)
    c14_response_layout_boundary {
        sasl_layout(boundary::<SaslResponse>())
    }
    // @bound SaslResponse as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_response_forms {
        sasl_forms::<SaslResponse>()
    }
    // @bound SaslOutcome as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_sasl_outcome_layout {
        sasl_layout(one_free::<SaslOutcome>())
    }
    // @bound SaslOutcome as encoded: every combination of absent and present optional fields, values free
    c14_sasl_outcome_layout_presence {
        sasl_layout(presence::<SaslOutcome>())
    }
    // @bound SaslOutcome as encoded: encodings of 257..=266 octets (list8/list32)
    c14_sasl_outcome_layout_boundary {
        sasl_layout(boundary::<SaslOutcome>())
    }
    // @bound SaslOutcome as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_sasl_outcome_forms {
        sasl_forms::<SaslOutcome>()
    }
    // @bound Error as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_error_layout {
        part_layout(one_free::<Error>())
    }
    // @bound Error as encoded: every combination of absent and present optional fields, values free
    c14_error_layout_presence {
        part_layout(presence::<Error>())
    }
    // @bound Error as encoded: encodings of 257..=266 octets (list8/list32)
    c14_error_layout_boundary {
        part_layout(boundary::<Error>())
    }
    // @bound Error as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_error_forms {
        part_forms::<Error>()
    }
    // @bound Received as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_received_layout {
        part_layout(one_free::<Received>())
    }
    // @bound Received as encoded: every combination of absent and present optional fields, values free
    c14_received_layout_presence {
        part_layout(presence::<Received>())
    }
    // @bound Received as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_received_forms {
        part_forms::<Received>()
    }
    // @bound Accepted as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_accepted_layout {
        part_layout(one_free::<Accepted>())
    }
    // @bound Accepted as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_accepted_forms {
        part_forms::<Accepted>()
    }
    // @bound Rejected as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_rejected_layout {
        part_layout(one_free::<Rejected>())
    }
    // @bound Rejected as encoded: every combination of absent and present optional fields, values free
    c14_rejected_layout_presence {
        part_layout(presence::<Rejected>())
    }
    // @bound Rejected as encoded: encodings of 257..=266 octets (list8/list32)
    c14_rejected_layout_boundary {
        part_layout(boundary::<Rejected>())
    }
    // @bound Rejected as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_rejected_forms {
        part_forms::<Rejected>()
    }
    // @bound Released as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_released_layout {
        part_layout(one_free::<Released>())
    }
    // @bound Released as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_released_forms {
        part_forms::<Released>()
    }
    // @bound Modified as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_modified_layout {
        part_layout(one_free::<Modified>())
    }
    // @bound Modified as encoded: every combination of absent and present optional fields, values free
    c14_modified_layout_presence {
        part_layout(presence::<Modified>())
    }
    // @bound Modified as encoded: encodings of 257..=266 octets (list8/list32)
    c14_modified_layout_boundary {
        part_layout(boundary::<Modified>())
    }
    // @bound Modified as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_modified_forms {
        part_forms::<Modified>()
    }
    // @bound Source as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_source_layout {
        part_layout(one_free::<Source>())
    }
    // @bound Source as encoded: every combination of absent and present optional fields, values free
    c14_source_layout_presence {
        part_layout(presence::<Source>())
    }
    // @bound Source as encoded: encodings of 257..=266 octets (list8/list32)
    c14_source_layout_boundary {
        part_layout(boundary::<Source>())
    }
    // @bound Source as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_source_forms {
        part_forms::<Source>()
    }
    // @bound Target as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_target_layout {
        part_layout(one_free::<Target>())
    }
    // @bound Target as encoded: every combination of absent and present optional fields, values free
    c14_target_layout_presence {
        part_layout(presence::<Target>())
    }
    // @bound Target as encoded: encodings of 257..=266 octets (list8/list32)
    c14_target_layout_boundary {
        part_layout(boundary::<Target>())
    }
    // @bound Target as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_target_forms {
        part_forms::<Target>()
    }
    // @bound Header as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_header_layout {
        part_layout(one_free::<Header>())
    }
    // @bound Header as encoded: every combination of absent and present optional fields, values free
    c14_header_layout_presence {
        part_layout(presence::<Header>())
    }
    // @bound Header as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_header_forms {
        part_forms::<Header>()
    }
    // @bound Properties as encoded: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c14_properties_layout {
        part_layout(one_free::<Properties>())
    }
    // @bound Properties as encoded: every combination of absent and present optional fields, values free
    c14_properties_layout_presence {
        part_layout(presence::<Properties>())
    }
    // @bound Properties as encoded: encodings of 257..=266 octets (list8/list32)
    c14_properties_layout_boundary {
        part_layout(boundary::<Properties>())
    }
    // @bound Properties as decoded: each field in turn in every structure and every wire form the specification allows, and every form of the descriptor and list header
    c14_properties_forms {
        part_forms::<Properties>()
    }
}
