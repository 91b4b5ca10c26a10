//! The decodable types, numbered, and equality of their values.
use crate::fields::Composite;
use crate::kinds::alike;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use bytes::Bytes;
use hashbrown::HashMap;
use std::hash::Hash;

/// Equality of decoded values, floats by their bits.
pub trait Same {
    fn same(&self, o: &Self) -> bool;
}
macro_rules! by_eq {
    ($($t:ty),*) => { $( impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } } )* };
}
by_eq!(bool, u8, u16, u32, u64, i8, i16, i32, i64, char, uuid::Uuid, Bytes, ByteStr, Str, Symbol, MessageId, ErrorCondition);
by_eq!(DistributionMode, Role, SenderSettleMode, ReceiverSettleMode, SaslCode, TerminusDurability, TerminusExpiryPolicy, Descriptor);
by_eq!(Symbols, Vec<u8>, Vec<i16>, Vec<Bytes>, Vec<Symbol>, DeliveryState, Outcome, SaslFrameBody, Timestamp);
by_eq!(Error, Open, Begin, Attach, Flow, Transfer, Disposition, Detach, End, Close, SaslMechanisms, SaslInit, SaslChallenge);
by_eq!(SaslResponse, SaslOutcome, Source, Target, Header, Properties, Received, Accepted, Rejected, Released, Modified, Frame);
impl Same for f32 {
    fn same(&self, o: &f32) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Same for f64 {
    fn same(&self, o: &f64) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl<T: Same> Same for Option<T> {
    fn same(&self, o: &Option<T>) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
}
impl Same for Variant {
    fn same(&self, o: &Variant) -> bool {
        alike(self, o)
    }
}
impl Same for List {
    fn same(&self, o: &List) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| alike(a, b))
    }
}
impl Same for VecVariantMap {
    fn same(&self, o: &VecVariantMap) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.0 == b.0 && alike(&a.1, &b.1))
    }
}
impl<K: Hash + Eq> Same for HashMap<K, Variant> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).map_or(false, |x| alike(v, x)))
    }
}
impl Same for Vec<Fields> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.same(b))
    }
}
/// Composites as such.
pub fn same_composite<T: Composite>(a: &T, b: &T) -> bool {
    a == b
}

pub const SCALARS: usize = 30;
#[macro_export]
macro_rules! each_scalar {
    ($k:expr, $f:ident $(, $a:expr)*) => {
        match $k {
            0 => $f::<bool>($($a),*),
            1 => $f::<u8>($($a),*),
            2 => $f::<u16>($($a),*),
            3 => $f::<u32>($($a),*),
            4 => $f::<u64>($($a),*),
            5 => $f::<i8>($($a),*),
            6 => $f::<i16>($($a),*),
            7 => $f::<i32>($($a),*),
            8 => $f::<i64>($($a),*),
            9 => $f::<f32>($($a),*),
            10 => $f::<f64>($($a),*),
            11 => $f::<char>($($a),*),
            12 => $f::<uuid::Uuid>($($a),*),
            13 => $f::<bytes::Bytes>($($a),*),
            14 => $f::<amqp_codec::types::ByteStr>($($a),*),
            15 => $f::<amqp_codec::types::Str>($($a),*),
            16 => $f::<amqp_codec::types::Symbol>($($a),*),
            17 => $f::<Option<u32>>($($a),*),
            18 => $f::<Option<amqp_codec::types::Symbol>>($($a),*),
            19 => $f::<amqp_codec::protocol::MessageId>($($a),*),
            20 => $f::<amqp_codec::protocol::ErrorCondition>($($a),*),
            21 => $f::<amqp_codec::protocol::DistributionMode>($($a),*),
            22 => $f::<amqp_codec::protocol::Role>($($a),*),
            23 => $f::<amqp_codec::protocol::SenderSettleMode>($($a),*),
            24 => $f::<amqp_codec::protocol::ReceiverSettleMode>($($a),*),
            25 => $f::<amqp_codec::protocol::SaslCode>($($a),*),
            26 => $f::<amqp_codec::protocol::TerminusDurability>($($a),*),
            27 => $f::<amqp_codec::protocol::TerminusExpiryPolicy>($($a),*),
            28 => $f::<amqp_codec::types::Descriptor>($($a),*),
            _ => $f::<amqp_codec::protocol::Timestamp>($($a),*),
        }
    };
}
pub const COMPOUNDS: usize = 12;
#[macro_export]
macro_rules! each_compound {
    ($k:expr, $f:ident $(, $a:expr)*) => {
        match $k {
            0 => $f::<amqp_codec::types::List>($($a),*),
            1 => $f::<amqp_codec::types::Multiple<amqp_codec::types::Symbol>>($($a),*),
            2 => $f::<Vec<u8>>($($a),*),
            3 => $f::<Vec<i16>>($($a),*),
            4 => $f::<Vec<bytes::Bytes>>($($a),*),
            5 => $f::<Vec<amqp_codec::types::Symbol>>($($a),*),
            6 => $f::<amqp_codec::types::Variant>($($a),*),
            7 => $f::<amqp_codec::protocol::Fields>($($a),*),
            8 => $f::<amqp_codec::protocol::StringVariantMap>($($a),*),
            9 => $f::<amqp_codec::protocol::Map>($($a),*),
            10 => $f::<amqp_codec::types::VecVariantMap>($($a),*),
            _ => $f::<Vec<amqp_codec::protocol::Fields>>($($a),*),
        }
    };
}
/// Header of the `k`th compound type, of either width, with free size and
/// count, and `n` free octets.
pub fn headed(k: usize, n: usize) -> Vec<u8> {
    let wide = crate::sym::pick(2) == 1;
    let c = match k {
        0 | 6 => 0xc0,
        1..=5 | 11 => 0xe0,
        _ => 0xc1,
    };
    let mut w = vec![if wide { c + 0x10 } else { c }];
    w.extend_from_slice(&crate::sym::octets(if wide { 8 } else { 2 } + n));
    w
}
