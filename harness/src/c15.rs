//! C15: absent fields take their specified defaults, mandatory ones are
//! required.
use crate::fields::*;
use crate::spec::whole;
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::{AmqpParseError, Decode};

fn amqp<T: InFrame<Union = Frame>>(w: &[u8]) -> Result<T, AmqpParseError> {
    Frame::decode(w).map(|(rest, f)| {
        assert!(rest.is_empty(), "octets left");
        match T::unwrap(f) {
            Some(v) => v,
            None => panic!("decoded as another performative"),
        }
    })
}
fn sasl<T: InFrame<Union = SaslFrameBody>>(w: &[u8]) -> Result<T, AmqpParseError> {
    SaslFrameBody::decode(w).map(|(rest, f)| {
        assert!(rest.is_empty(), "octets left");
        match T::unwrap(f) {
            Some(v) => v,
            None => panic!("decoded as another performative"),
        }
    })
}
fn part<T: Composite>(w: &[u8]) -> Result<T, AmqpParseError> {
    match T::decode(w) {
        Ok(r) => Ok(whole(Ok(r))),
        Err(e) => Err(e),
    }
}

/// The list ends after `n` fields.
fn truncated<T: Composite>(decode: fn(&[u8]) -> Result<T, AmqpParseError>) {
    let n = sym::pick(T::N + 1);
    let mut v = T::draw(999, Mode::Poor, Mode::Poor);
    let mut w = Vec::new();
    composite_write(&v, &mut w, n, 999, true);
    let mut fine = true;
    for i in n..T::N {
        fine &= v.omit(i);
    }
    judge(decode(&w), v, fine);
}
/// Any set of fields is null.
fn nulls<T: Composite>(decode: fn(&[u8]) -> Result<T, AmqpParseError>) {
    let mut v = T::draw(999, Mode::Poor, Mode::Poor);
    let mut b = Vec::new();
    let mut fine = true;
    for i in 0..T::N {
        if sym::pick(2) == 1 {
            b.push(0x40);
            fine &= v.omit(i);
        } else {
            v.write_field(i, &mut b, false)
        }
    }
    let mut w = Vec::new();
    descriptor::<T>(&mut w, false);
    list(&mut w, false, T::N, &b);
    judge(decode(&w), v, fine);
}
fn judge<T: Composite>(r: Result<T, AmqpParseError>, v: T, fine: bool) {
    match r {
        Ok(d) => {
            assert!(fine, "a mandatory field is missing and the value is accepted");
            for i in 0..T::N {
                assert!(v.equal(i, &d), "absent field has another value than its default");
            }
        }
        Err(_) => assert!(!fine, "only optional fields are missing and the value is rejected"),
    }
}

harnesses! {
    // @bound Open: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_open_truncated {
        truncated::<Open>(amqp::<Open>)
    }
    // @bound Open: every set of fields is null; present fields free
    c15_open_nulls {
        nulls::<Open>(amqp::<Open>)
    }
    // @bound Begin: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_begin_truncated {
        truncated::<Begin>(amqp::<Begin>)
    }
    // @bound Begin: every set of fields is null; present fields free
    c15_begin_nulls {
        nulls::<Begin>(amqp::<Begin>)
    }
    // @bound Attach: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_attach_truncated {
        truncated::<Attach>(amqp::<Attach>)
    }
    // @bound Attach: every set of fields is null; present fields free
    // @opts {"weight":9}
    c15_attach_nulls {
        nulls::<Attach>(amqp::<Attach>)
    }
    // @bound Flow: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_flow_truncated {
        truncated::<Flow>(amqp::<Flow>)
    }
    // @bound Flow: every set of fields is null; present fields free
    c15_flow_nulls {
        nulls::<Flow>(amqp::<Flow>)
    }
    // @bound Transfer: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_transfer_truncated {
        truncated::<Transfer>(amqp::<Transfer>)
    }
    // @bound Transfer: every set of fields is null; present fields free
    c15_transfer_nulls {
        nulls::<Transfer>(amqp::<Transfer>)
    }
    // @bound Disposition: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_disposition_truncated {
        truncated::<Disposition>(amqp::<Disposition>)
    }
    // @bound Disposition: every set of fields is null; present fields free
    c15_disposition_nulls {
        nulls::<Disposition>(amqp::<Disposition>)
    }
    // @bound Detach: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_detach_truncated {
        truncated::<Detach>(amqp::<Detach>)
    }
    // @bound Detach: every set of fields is null; present fields free
    c15_detach_nulls {
        nulls::<Detach>(amqp::<Detach>)
    }
    // @bound End: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_end_truncated {
        truncated::<End>(amqp::<End>)
    }
    // @bound End: every set of fields is null; present fields free
    c15_end_nulls {
        nulls::<End>(amqp::<End>)
    }
    // @bound Close: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_close_truncated {
        truncated::<Close>(amqp::<Close>)
    }
    // @bound Close: every set of fields is null; present fields free
    c15_close_nulls {
        nulls::<Close>(amqp::<Close>)
    }
    // @bound SaslMechanisms: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_mechanisms_truncated {
        truncated::<SaslMechanisms>(sasl::<SaslMechanisms>)
    }
    // @bound SaslMechanisms: every set of fields is null; present fields free
    c15_mechanisms_nulls {
        nulls::<SaslMechanisms>(sasl::<SaslMechanisms>)
    }
    // @bound SaslInit: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_init_truncated {
        truncated::<SaslInit>(sasl::<SaslInit>)
    }
    // @bound SaslInit: every set of fields is null; present fields free
    c15_init_nulls {
        nulls::<SaslInit>(sasl::<SaslInit>)
    }
    // @bound SaslChallenge: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_challenge_truncated {
        truncated::<SaslChallenge>(sasl::<SaslChallenge>)
    }
    // @bound SaslChallenge: every set of fields is null; present fields free
    c15_challenge_nulls {
        nulls::<SaslChallenge>(sasl::<SaslChallenge>)
    }
    // @bound SaslResponse: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_response_truncated {
        truncated::<SaslResponse>(sasl::<SaslResponse>)
    }
    // @bound SaslResponse: every set of fields is null; present fields free
    c15_response_nulls {
        nulls::<SaslResponse>(sasl::<SaslResponse>)
    }
    // @bound SaslOutcome: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_sasl_outcome_truncated {
        truncated::<SaslOutcome>(sasl::<SaslOutcome>)
    }
    // @bound SaslOutcome: every set of fields is null; present fields free
    c15_sasl_outcome_nulls {
        nulls::<SaslOutcome>(sasl::<SaslOutcome>)
    }
    // @bound Error: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_error_truncated {
        truncated::<Error>(part::<Error>)
    }
    // @bound Error: every set of fields is null; present fields free
    c15_error_nulls {
        nulls::<Error>(part::<Error>)
    }
    // @bound Received: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_received_truncated {
        truncated::<Received>(part::<Received>)
    }
    // @bound Received: every set of fields is null; present fields free
    c15_received_nulls {
        nulls::<Received>(part::<Received>)
    }
    // @bound Rejected: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_rejected_truncated {
        truncated::<Rejected>(part::<Rejected>)
    }
    // @bound Rejected: every set of fields is null; present fields free
    c15_rejected_nulls {
        nulls::<Rejected>(part::<Rejected>)
    }
    // @bound Modified: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_modified_truncated {
        truncated::<Modified>(part::<Modified>)
    }
    // @bound Modified: every set of fields is null; present fields free
    c15_modified_nulls {
        nulls::<Modified>(part::<Modified>)
    }
    // @bound Source: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_source_truncated {
        truncated::<Source>(part::<Source>)
    }
    // @bound Source: every set of fields is null; present fields free
    c15_source_nulls {
        nulls::<Source>(part::<Source>)
    }
    // @bound Target: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_target_truncated {
        truncated::<Target>(part::<Target>)
    }
    // @bound Target: every set of fields is null; present fields free
    c15_target_nulls {
        nulls::<Target>(part::<Target>)
    }
    // @bound Header: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_header_truncated {
        truncated::<Header>(part::<Header>)
    }
    // @bound Header: every set of fields is null; present fields free
    c15_header_nulls {
        nulls::<Header>(part::<Header>)
    }
    // @bound Properties: the list ends after any number of fields; every form of descriptor and list header; present fields free
    c15_properties_truncated {
        truncated::<Properties>(part::<Properties>)
    }
    // @bound Properties: every set of fields is null; present fields free
    c15_properties_nulls {
        nulls::<Properties>(part::<Properties>)
    }
}
