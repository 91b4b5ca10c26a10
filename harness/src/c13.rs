//! C13: performatives survive encoding and decoding.
use crate::fields::*;
use crate::spec::{enc, whole};
use crate::sym;
use crate::each_composite;
use amqp_codec::protocol::*;
use amqp_codec::{AmqpFrame, Decode, SaslFrame};

fn amqp<T: InFrame<Union = Frame>>(v: T) {
    let ch = sym::u16();
    let f = AmqpFrame::new(ch, v.clone().wrap());
    let e = enc(&f);
    let d: AmqpFrame = whole(AmqpFrame::decode(&e[4..]));
    let (c, p) = d.into_parts();
    assert!(c == ch, "channel changed by encoding and decoding");
    match T::unwrap(p) {
        Some(d) => same(v, d),
        None => panic!("decoded as another performative"),
    }
    let d: Frame = whole(Frame::decode(&e[8..]));
    assert!(T::unwrap(d).is_some(), "decoded as another performative");
}
fn sasl<T: InFrame<Union = SaslFrameBody>>(v: T) {
    let e = enc(&SaslFrame::new(v.clone().wrap()));
    let d: SaslFrame = whole(SaslFrame::decode(&e[4..]));
    match T::unwrap(d.body) {
        Some(d) => same(v, d),
        None => panic!("decoded as another performative"),
    }
}
fn part<T: Composite>(v: T) {
    let d: T = whole(T::decode(&enc(&v)));
    same(v, d)
}
fn same<T: Composite>(v: T, d: T) {
    // field by field: equality of the whole must agree with it
    for i in 0..T::N {
        assert!(v.equal(i, &d), "field changed by encoding and decoding");
    }
    assert!(d == v, "performative changed by encoding and decoding");
}
fn wide_part<T: Composite>() {
    part(wide::<T>())
}
fn large_part<T: Composite>() {
    part(large::<T>())
}

harnesses! {
    // @bound each of 24 composite types, each variable-width field in turn having 2-300 octets, texts of two-octet characters
    // @opts {"shards":24}
    c13_wide {
        each_composite!(sym::pick(COMPOSITES), wide_part)
    }
    // @bound each of 24 composite types, each variable-width field in turn having 65500, 65536 or 70000 octets
    // @opts {"shards":24}
    c13_large {
        each_composite!(sym::pick(COMPOSITES), large_part)
    }
    // @bound Open, any channel: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_open {
        amqp(one_free::<Open>())
    }
    // @bound Open: every combination of absent and present optional fields, values free
    c13_open_presence {
        amqp(presence::<Open>())
    }
    // @bound Open: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_open_boundary {
        amqp(boundary::<Open>())
    }
    // @bound Open: each pair of fields in every structure
    // @opts {"shards":100,"timeout":3000}
    c13_open_pairs_t {
        amqp(two_free::<Open>())
    }
    // @bound Begin, any channel: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_begin {
        amqp(one_free::<Begin>())
    }
    // @bound Begin: every combination of absent and present optional fields, values free
    c13_begin_presence {
        amqp(presence::<Begin>())
    }
    // @bound Begin: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_begin_boundary {
        amqp(boundary::<Begin>())
    }
    // @bound Begin: each pair of fields in every structure
    // @opts {"shards":64,"timeout":3000}
    c13_begin_pairs_t {
        amqp(two_free::<Begin>())
    }
    // @bound Attach, any channel: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    // @opts {"shards":14,"weight":9}
    c13_attach {
        amqp(one_free::<Attach>())
    }
    // @bound Attach: every combination of absent and present optional fields, values free
    c13_attach_presence {
        amqp(presence::<Attach>())
    }
    // @bound Attach: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_attach_boundary {
        amqp(boundary::<Attach>())
    }
    // @bound Attach: each pair of fields in every structure
    // @opts {"shards":196,"timeout":3000}
    c13_attach_pairs_t {
        amqp(two_free::<Attach>())
    }
    // @bound Flow, any channel: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_flow {
        amqp(one_free::<Flow>())
    }
    // @bound Flow: every combination of absent and present optional fields, values free
    c13_flow_presence {
        amqp(presence::<Flow>())
    }
    // @bound Flow: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_flow_boundary {
        amqp(boundary::<Flow>())
    }
    // @bound Flow: each pair of fields in every structure
    // @opts {"shards":121,"timeout":3000}
    c13_flow_pairs_t {
        amqp(two_free::<Flow>())
    }
    // @bound Transfer, any channel: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    // @opts {"weight":5}
    c13_transfer {
        amqp(one_free::<Transfer>())
    }
    // @bound Transfer: every combination of absent and present optional fields, values free
    c13_transfer_presence {
        amqp(presence::<Transfer>())
    }
    // @bound Transfer: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_transfer_boundary {
        amqp(boundary::<Transfer>())
    }
    // @bound Transfer: each pair of fields in every structure
    // @opts {"shards":121,"timeout":3000}
    c13_transfer_pairs_t {
        amqp(two_free::<Transfer>())
    }
    // @bound Disposition, any channel: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_disposition {
        amqp(one_free::<Disposition>())
    }
    // @bound Disposition: every combination of absent and present optional fields, values free
    c13_disposition_presence {
        amqp(presence::<Disposition>())
    }
    // @bound Disposition: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_disposition_boundary {
        amqp(boundary::<Disposition>())
    }
    // @bound Disposition: each pair of fields in every structure
    // @opts {"shards":36,"timeout":3000}
    c13_disposition_pairs_t {
        amqp(two_free::<Disposition>())
    }
    // @bound Detach, any channel: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_detach {
        amqp(one_free::<Detach>())
    }
    // @bound Detach: every combination of absent and present optional fields, values free
    c13_detach_presence {
        amqp(presence::<Detach>())
    }
    // @bound Detach: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_detach_boundary {
        amqp(boundary::<Detach>())
    }
    // @bound End, any channel: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_end {
        amqp(one_free::<End>())
    }
    // @bound End: every combination of absent and present optional fields, values free
    c13_end_presence {
        amqp(presence::<End>())
    }
    // @bound End: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_end_boundary {
        amqp(boundary::<End>())
    }
    // @bound Close, any channel: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_close {
        amqp(one_free::<Close>())
    }
    // @bound Close: every combination of absent and present optional fields, values free
    c13_close_presence {
        amqp(presence::<Close>())
    }
    // @bound Close: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_close_boundary {
        amqp(boundary::<Close>())
    }
    // @bound SaslMechanisms: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_mechanisms {
        sasl(one_free::<SaslMechanisms>())
    }
    // @bound SaslMechanisms: every combination of absent and present optional fields, values free
    c13_mechanisms_presence {
        sasl(presence::<SaslMechanisms>())
    }
    // @bound SaslMechanisms: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_mechanisms_boundary {
        sasl(boundary::<SaslMechanisms>())
    }
    // @bound SaslInit: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_init {
        sasl(one_free::<SaslInit>())
    }
    // @bound SaslInit: every combination of absent and present optional fields, values free
    c13_init_presence {
        sasl(presence::<SaslInit>())
    }
    // @bound SaslInit: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_init_boundary {
        sasl(boundary::<SaslInit>())
    }
    // @bound SaslChallenge: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_challenge {
        sasl(one_free::<SaslChallenge>())
    }
    // @bound SaslChallenge: every combination of absent and present optional fields, values free
    c13_challenge_presence {
        sasl(presence::<SaslChallenge>())
    }
    // @bound SaslChallenge: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_challenge_boundary {
        sasl(boundary::<SaslChallenge>())
    }
    // @bound SaslResponse: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_response {
        sasl(one_free::<SaslResponse>())
    }
    // @bound SaslResponse: every combination of absent and present optional fields, values free
    c13_response_presence {
        sasl(presence::<SaslResponse>())
    }
    // @bound SaslResponse: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_response_boundary {
        sasl(boundary::<SaslResponse>())
    }
    // @bound SaslOutcome: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_sasl_outcome {
        sasl(one_free::<SaslOutcome>())
    }
    // @bound SaslOutcome: every combination of absent and present optional fields, values free
    c13_sasl_outcome_presence {
        sasl(presence::<SaslOutcome>())
    }
    // @bound SaslOutcome: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_sasl_outcome_boundary {
        sasl(boundary::<SaslOutcome>())
    }
    // @bound Error: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_error {
        part(one_free::<Error>())
    }
    // @bound Error: every combination of absent and present optional fields, values free
    c13_error_presence {
        part(presence::<Error>())
    }
    // @bound Error: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_error_boundary {
        part(boundary::<Error>())
    }
    // @bound Received: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_received {
        part(one_free::<Received>())
    }
    // @bound Received: every combination of absent and present optional fields, values free
    c13_received_presence {
        part(presence::<Received>())
    }
    // @bound Accepted: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_accepted {
        part(one_free::<Accepted>())
    }
    // @bound Rejected: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_rejected {
        part(one_free::<Rejected>())
    }
    // @bound Rejected: every combination of absent and present optional fields, values free
    c13_rejected_presence {
        part(presence::<Rejected>())
    }
    // @bound Rejected: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_rejected_boundary {
        part(boundary::<Rejected>())
    }
    // @bound Released: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_released {
        part(one_free::<Released>())
    }
    // @bound Modified: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_modified {
        part(one_free::<Modified>())
    }
    // @bound Modified: every combination of absent and present optional fields, values free
    c13_modified_presence {
        part(presence::<Modified>())
    }
    // @bound Modified: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_modified_boundary {
        part(boundary::<Modified>())
    }
    // @bound Source: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_source {
        part(one_free::<Source>())
    }
    // @bound Source: every combination of absent and present optional fields, values free
    c13_source_presence {
        part(presence::<Source>())
    }
    // @bound Source: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_source_boundary {
        part(boundary::<Source>())
    }
    // @bound Source: each pair of fields in every structure
    // @opts {"shards":121,"timeout":3000}
    c13_source_pairs_t {
        part(two_free::<Source>())
    }
    // @bound Target: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_target {
        part(one_free::<Target>())
    }
    // @bound Target: every combination of absent and present optional fields, values free
    c13_target_presence {
        part(presence::<Target>())
    }
    // @bound Target: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_target_boundary {
        part(boundary::<Target>())
    }
    // @bound Target: each pair of fields in every structure
    // @opts {"shards":49,"timeout":3000}
    c13_target_pairs_t {
        part(two_free::<Target>())
    }
    // @bound Header: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_header {
        part(one_free::<Header>())
    }
    // @bound Header: every combination of absent and present optional fields, values free
    c13_header_presence {
        part(presence::<Header>())
    }
    // @bound Properties: each field in turn in every structure (texts of 0-3 octets, 0-2 array/map entries, nested composites likewise), the others present or absent; all octets and numbers free
    c13_properties {
        part(one_free::<Properties>())
    }
    // @bound Properties: every combination of absent and present optional fields, values free
    c13_properties_presence {
        part(presence::<Properties>())
    }
    // @bound Properties: encodings of 257..=266 octets (list8/list32), each variable-width field in turn being the long one
    c13_properties_boundary {
        part(boundary::<Properties>())
    }
    // @bound Properties: each pair of fields in every structure
    // @opts {"shards":169,"timeout":3000}
    c13_properties_pairs_t {
        part(two_free::<Properties>())
    }
}
