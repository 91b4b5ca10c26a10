//! C17: restricted values accept exactly the choices AMQP 1.0 defines.
use crate::fields::*;
use crate::spec::{enc, ok, R};
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{AmqpParseError, Decode, Encode};

/// A value of the underlying type and one of its wire forms.
trait Source_: Copy {
    fn draw() -> Self;
    fn put(self, w: &mut Vec<u8>);
}
impl Source_ for bool {
    fn draw() -> bool {
        sym::bool()
    }
    fn put(self, w: &mut Vec<u8>) {
        self.write(w, true)
    }
}
impl Source_ for u8 {
    fn draw() -> u8 {
        sym::u8()
    }
    fn put(self, w: &mut Vec<u8>) {
        self.write(w, true)
    }
}
impl Source_ for u32 {
    fn draw() -> u32 {
        sym::u32()
    }
    fn put(self, w: &mut Vec<u8>) {
        self.write(w, true)
    }
}

/// A choice the specification does not have is refused, by that name.
fn unknown<T>(r: Result<T, AmqpParseError>) {
    match r {
        Ok(_) => panic!("undefined choice accepted"),
        Err(AmqpParseError::UnknownEnumOption(_)) => witness!("undefined choice"),
        Err(_) => panic!("another error than that of an undefined choice"),
    }
}
/// What the specification says about `v` against what the code does.
fn number<S: Source_ + PartialEq, T: Choices + Decode + Encode + PartialEq>(spec: &[(S, T)], try_from: fn(S) -> Result<T, AmqpParseError>) {
    let v = S::draw();
    let mut w = Vec::new();
    v.put(&mut w);
    let tail = sym::u8();
    w.push(tail);
    for (s, t) in spec {
        if *s == v {
            match try_from(v) {
                Ok(x) => assert!(x == *t, "defined value converted to another choice"),
                Err(_) => panic!("defined value refused"),
            }
            let (rest, d) = ok(T::decode(&w));
            assert!(rest.len() == 1 && rest[0] == tail, "octets after the value");
            assert!(d == *t, "defined value decoded as another choice");
            let e = enc(&d);
            let mut r = R::new(&e);
            d.check(&mut r);
            r.end();
            witness!("defined choice");
            return;
        }
    }
    unknown(try_from(v));
    unknown(T::decode(&w).map(|r| r.1));
}
/// `n` free ASCII octets; where `n` is the length of a name, also that name
/// with one octet replaced by any other ASCII octet.
fn damaged(names: &[&str], n: usize) -> Vec<u8> {
    let near: Vec<&&str> = names.iter().filter(|s| s.len() == n).collect();
    let i = sym::pick(near.len() * n + 1);
    if i == near.len() * n {
        return sym::text(n).into_bytes();
    }
    let mut s = near[i / n].as_bytes().to_vec();
    s[i % n] = sym::ascii();
    s
}
fn put_symbol(w: &mut Vec<u8>, s: &[u8]) {
    if sym::pick(2) == 0 {
        w.push(0xa3);
        w.push(s.len() as u8)
    } else {
        w.extend_from_slice(&[0xb3, 0, 0, 0, s.len() as u8])
    }
    w.extend_from_slice(s)
}
fn text(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
/// Symbols of up to two octets more than the longest name.
fn drawn(names: &[&str]) -> Vec<u8> {
    let longest = names.iter().fold(0, |a, s| a.max(s.len()));
    let n = sym::pick(longest + 3);
    damaged(names, n)
}
fn symbol<T: Choices + PartialEq>(spec: &[(&str, T)], try_from: fn(&Symbol) -> Result<T, AmqpParseError>) -> (Vec<u8>, Option<usize>) {
    let names: Vec<&str> = spec.iter().map(|s| s.0).collect();
    let s = drawn(&names);
    let sym = Symbol::from_slice(text(&s));
    for (i, (name, t)) in spec.iter().enumerate() {
        if name.as_bytes() == &s[..] {
            match try_from(&sym) {
                Ok(x) => assert!(x == *t, "defined symbol converted to another choice"),
                Err(_) => panic!("defined symbol refused"),
            }
            witness!("defined choice");
            return (s, Some(i));
        }
    }
    unknown(try_from(&sym));
    (s, None)
}
/// Symbols that are decoded by themselves.
fn closed<T: Choices + Decode + Encode + PartialEq>(spec: &[(&str, T)], try_from: fn(&Symbol) -> Result<T, AmqpParseError>) {
    let (s, i) = symbol(spec, try_from);
    let mut w = Vec::new();
    put_symbol(&mut w, &s);
    match i {
        Some(i) => {
            let (rest, d) = ok(T::decode(&w));
            assert!(rest.is_empty() && d == spec[i].1, "defined symbol decoded as another choice");
            named(&d, spec[i].0)
        }
        None => unknown(T::decode(&w).map(|r| r.1)),
    }
}
fn named<T: Encode>(v: &T, name: &str) {
    let e = enc(v);
    let mut r = R::new(&e);
    assert!(r.symbol() == name.as_bytes(), "symbol the choice is encoded as");
    r.end()
}
fn every<T: Choices + Encode>(spec: &[(&str, T)]) {
    assert!(spec.len() == T::N, "number of choices");
    let k = sym::pick(spec.len());
    named(&spec[k].1, spec[k].0)
}

macro_rules! table {
    ($f:ident: $t:ident [$($v:ident $s:expr),*]) => {
        fn $f() -> Vec<(&'static str, $t)> {
            vec![$(($s, $t::$v)),*]
        }
    };
}
table!(amqp: AmqpError [InternalError "amqp:internal-error", NotFound "amqp:not-found", UnauthorizedAccess "amqp:unauthorized-access",
    DecodeError "amqp:decode-error", ResourceLimitExceeded "amqp:resource-limit-exceeded", NotAllowed "amqp:not-allowed",
    InvalidField "amqp:invalid-field", NotImplemented "amqp:not-implemented", ResourceLocked "amqp:resource-locked",
    PreconditionFailed "amqp:precondition-failed", ResourceDeleted "amqp:resource-deleted", IllegalState "amqp:illegal-state",
    FrameSizeTooSmall "amqp:frame-size-too-small"]);
table!(connection: ConnectionError [ConnectionForced "amqp:connection:forced", FramingError "amqp:connection:framing-error",
    Redirect "amqp:connection:redirect"]);
table!(session: SessionError [WindowViolation "amqp:session:window-violation", ErrantLink "amqp:session:errant-link",
    HandleInUse "amqp:session:handle-in-use", UnattachedHandle "amqp:session:unattached-handle"]);
table!(link: LinkError [DetachForced "amqp:link:detach-forced", TransferLimitExceeded "amqp:link:transfer-limit-exceeded",
    MessageSizeExceeded "amqp:link:message-size-exceeded", Redirect "amqp:link:redirect", Stolen "amqp:link:stolen"]);
table!(expiry: TerminusExpiryPolicy [LinkDetach "link-detach", SessionEnd "session-end", ConnectionClose "connection-close", Never "never"]);

fn conditions() -> Vec<(&'static str, ErrorCondition)> {
    let mut r = Vec::new();
    r.extend(amqp().into_iter().map(|(s, e)| (s, ErrorCondition::AmqpError(e))));
    r.extend(connection().into_iter().map(|(s, e)| (s, ErrorCondition::ConnectionError(e))));
    r.extend(session().into_iter().map(|(s, e)| (s, ErrorCondition::SessionError(e))));
    r.extend(link().into_iter().map(|(s, e)| (s, ErrorCondition::LinkError(e))));
    r
}

/// A composite with one field replaced by any value of its underlying type.
fn in_field<S: Source_ + PartialEq, T: Composite>(i: usize, allowed: &[S], is: fn(&T, S) -> bool) {
    let v = sym::plain(|| T::draw(999, Mode::Poor, Mode::Poor));
    let x = S::draw();
    let mut b = Vec::new();
    for k in 0..T::N {
        if k == i {
            x.put(&mut b)
        } else {
            v.write_field(k, &mut b, false)
        }
    }
    let mut w = Vec::new();
    descriptor::<T>(&mut w, false);
    list(&mut w, false, T::N, &b);
    if allowed.contains(&x) {
        let (_, d) = ok(T::decode(&w));
        assert!(is(&d, x), "field holds another choice");
        witness!("defined choice")
    } else {
        unknown(T::decode(&w).map(|r| r.1))
    }
}

harnesses! {
    // @bound both booleans in every form
    c17_role {
        number(&[(false, Role::Sender), (true, Role::Receiver)], |v| Role::try_from(v).map(|r| r));
        sym::reach("undefined choice") // there is none
    }
    // @bound all octets
    c17_sender_settle_mode {
        number(&[(0, SenderSettleMode::Unsettled), (1, SenderSettleMode::Settled), (2, SenderSettleMode::Mixed)], SenderSettleMode::try_from)
    }
    // @bound all octets
    c17_receiver_settle_mode {
        number(&[(0, ReceiverSettleMode::First), (1, ReceiverSettleMode::Second)], ReceiverSettleMode::try_from)
    }
    // @bound all octets
    c17_sasl_code {
        number(&[(0, SaslCode::Ok), (1, SaslCode::Auth), (2, SaslCode::Sys), (3, SaslCode::SysPerm), (4, SaslCode::SysTemp)], SaslCode::try_from)
    }
    // @bound all 32-bit numbers in every form
    c17_durability {
        number(&[(0, TerminusDurability::None), (1, TerminusDurability::Configuration), (2, TerminusDurability::UnsettledState)], TerminusDurability::try_from)
    }
    // @bound all ASCII symbols of 0 to 2 octets more than the longest name, each name with any one octet replaced; sym8 and sym32
    c17_expiry_policy {
        closed(&expiry(), TerminusExpiryPolicy::try_from)
    }
    // @bound the same for AMQP errors
    c17_amqp_error {
        closed(&amqp(), AmqpError::try_from)
    }
    // @bound the same for connection errors
    c17_connection_error {
        closed(&connection(), ConnectionError::try_from)
    }
    // @bound the same for session errors
    c17_session_error {
        closed(&session(), SessionError::try_from)
    }
    // @bound the same for link errors
    c17_link_error {
        closed(&link(), LinkError::try_from)
    }
    // @bound every choice of a symbolic type as encoded
    c17_encoded {
        match sym::pick(5) {
            0 => every(&amqp()),
            1 => every(&connection()),
            2 => every(&session()),
            3 => every(&link()),
            _ => every(&expiry()),
        }
    }
    // @bound error conditions: all ASCII symbols of 0 to 35 octets, each name with any one octet replaced; any other symbol is kept
    // @opts {"shards":2}
    c17_condition {
        let table = conditions();
        let names: Vec<&str> = table.iter().map(|s| s.0).collect();
        let s = drawn(&names);
        let mut w = Vec::new();
        put_symbol(&mut w, &s);
        let (rest, d) = ok(ErrorCondition::decode(&w));
        assert!(rest.is_empty(), "octets left");
        for (name, c) in table {
            if name.as_bytes() == &s[..] {
                assert!(d == c, "defined condition decoded as another");
                named(&d, name);
                witness!("defined choice");
                return;
            }
        }
        match &d {
            ErrorCondition::Custom(c) => assert!(c.as_bytes() == &s[..], "custom condition changed"),
            _ => panic!("defined condition for an undefined symbol"),
        }
        named(&d, text(&s));
        witness!("undefined choice")
    }
    // @bound distribution modes: all ASCII symbols of 0-7 octets, any UTF-8 text of one character
    c17_distribution {
        let s = if sym::pick(2) == 0 {
            drawn(&["move", "copy", "12345"])
        } else {
            let mut b = [0; 4];
            sym::char().encode_utf8(&mut b).as_bytes().to_vec()
        };
        let mut w = Vec::new();
        put_symbol(&mut w, &s);
        let (rest, d) = ok(DistributionMode::decode(&w));
        assert!(rest.is_empty(), "octets left");
        let name = text(&s);
        match &d {
            DistributionMode::Move => assert!(name == "move", "undefined mode taken for a defined one"),
            DistributionMode::Copy => assert!(name == "copy", "undefined mode taken for a defined one"),
            DistributionMode::Custom(c) => {
                assert!(name != "move" && name != "copy", "defined mode taken for a custom one");
                assert!(c.as_bytes() == &s[..], "custom mode changed");
                witness!("custom mode")
            }
        }
        named(&d, name)
    }
    // @bound every field of a restricted numeric type, any value of the underlying type in every form
    c17_in_fields {
        match sym::pick(10) {
            0 => in_field::<u8, Attach>(3, &[0, 1, 2], |d, x| d.snd_settle_mode == [SenderSettleMode::Unsettled, SenderSettleMode::Settled, SenderSettleMode::Mixed][x as usize]),
            1 => in_field::<u8, Attach>(4, &[0, 1], |d, x| d.rcv_settle_mode == [ReceiverSettleMode::First, ReceiverSettleMode::Second][x as usize]),
            2 => in_field::<u8, Transfer>(6, &[0, 1], |d, x| d.rcv_settle_mode == Some([ReceiverSettleMode::First, ReceiverSettleMode::Second][x as usize].clone())),
            3 => in_field::<u8, SaslOutcome>(0, &[0, 1, 2, 3, 4], |d, x| d.code == [SaslCode::Ok, SaslCode::Auth, SaslCode::Sys, SaslCode::SysPerm, SaslCode::SysTemp][x as usize]),
            4 => in_field::<u32, Source>(1, &[0, 1, 2], |d, x| d.durable == [TerminusDurability::None, TerminusDurability::Configuration, TerminusDurability::UnsettledState][x as usize]),
            5 => in_field::<u32, Target>(1, &[0, 1, 2], |d, x| d.durable == [TerminusDurability::None, TerminusDurability::Configuration, TerminusDurability::UnsettledState][x as usize]),
            6 => in_field::<bool, Attach>(2, &[false, true], |d, x| d.role == if x { Role::Receiver } else { Role::Sender }),
            7 => in_field::<bool, Disposition>(0, &[false, true], |d, x| d.role == if x { Role::Receiver } else { Role::Sender }),
            8 => policy_in_field::<Source>(|d| &d.expiry_policy),
            _ => policy_in_field::<Target>(|d| &d.expiry_policy),
        }
    }
}
fn policy_in_field<T: Composite>(get: fn(&T) -> &TerminusExpiryPolicy) {
    let v = sym::plain(|| T::draw(999, Mode::Poor, Mode::Poor));
    let table = expiry();
    let names: Vec<&str> = table.iter().map(|s| s.0).collect();
    let s = drawn(&names);
    let mut b = Vec::new();
    for k in 0..T::N {
        if k == 2 {
            put_symbol(&mut b, &s)
        } else {
            v.write_field(k, &mut b, false)
        }
    }
    let mut w = Vec::new();
    descriptor::<T>(&mut w, false);
    list(&mut w, false, T::N, &b);
    for (name, t) in table {
        if name.as_bytes() == &s[..] {
            let (_, d) = ok(T::decode(&w));
            assert!(*get(&d) == t, "field holds another choice");
            return;
        }
    }
    unknown(T::decode(&w).map(|r| r.1))
}
