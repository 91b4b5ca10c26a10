//! Messages as the specification (part 3, section 2) lays them out: the
//! sections a message may have, a reference writer and a reference reader.
use crate::fields::*;
use crate::kinds::alike;
use crate::spec::R;
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{InMessage, OutMessage};
use bytes::Bytes;

/// Sections, besides the body.
pub const PARTS: usize = 6;
#[derive(Clone)]
pub struct Parts {
    pub header: Option<Header>,
    pub delivery: Option<Annotations>,
    pub message: Option<Annotations>,
    pub properties: Option<Properties>,
    /// in the order of insertion
    pub app: Option<Vec<(Str, Variant)>>,
    pub data: Vec<Bytes>,
    pub sequence: Vec<List>,
    pub value: Option<Variant>,
    pub footer: Option<Annotations>,
}
fn some<T: Field>(present: bool, m: Mode) -> Option<T> {
    if present {
        Some(T::any(m))
    } else {
        None
    }
}
pub fn app(m: Mode) -> Vec<(Str, Variant)> {
    let n = if m == Mode::Rich { sym::pick(3) } else { 1 };
    (0..n)
        .map(|i| {
            let k = if n == 1 && m == Mode::Rich { Str::any(Mode::Poor) } else { Str::key(i) };
            (k, Variant::any(if i == 0 { m } else { Mode::Poor }))
        })
        .collect()
}
pub fn sequence(n: usize) -> List {
    List((0..n).map(|i| if i == 0 { Variant::Ushort(sym::u16()) } else { Variant::Boolean(sym::bool()) }).collect())
}
pub const BODIES: usize = 9;
impl Parts {
    /// The sections in the set `set`; section `rich` in every structure.
    pub fn draw(set: usize, rich: usize) -> Parts {
        let m = |i| if i == rich { Mode::Rich } else { Mode::Poor };
        let p = |i: usize| set >> i & 1 == 1;
        Parts {
            header: some(p(0), m(0)),
            delivery: some(p(1), m(1)),
            message: some(p(2), m(2)),
            properties: if p(3) {
                // only the identifiers, unless it is about the properties
                Some(if rich == 3 { Properties::any(Mode::Rich) } else { Properties { message_id: Some(MessageId::Ulong(sym::u64())), ..Properties::default() } })
            } else {
                None
            },
            app: if p(4) { Some(app(m(4))) } else { None },
            data: Vec::new(),
            sequence: Vec::new(),
            value: None,
            footer: some(p(5), m(5)),
        }
    }
    /// One of the bodies a message may have.
    pub fn body(mut self, k: usize) -> Parts {
        match k {
            0 => self.data = vec![Bytes::any(Mode::Poor)],
            1 => self.data = vec![Bytes::any(Mode::Rich)],
            2 => self.data = vec![Bytes::any(Mode::Poor), Bytes::new(), Bytes::any(Mode::Poor)],
            3 => self.sequence = vec![sequence(1)],
            4 => self.sequence = vec![sequence(sym::pick(3)), sequence(sym::pick(3))],
            5 => self.value = Some(Variant::any(Mode::Poor)),
            6 => self.value = Some(Variant::any(Mode::Rich)),
            7 => self.value = Some(Variant::Null),
            _ => (),
        }
        self
    }
    pub fn write(&self, w: &mut Vec<u8>, alt: bool) {
        if let Some(v) = &self.header {
            v.write(w, alt)
        }
        if let Some(v) = &self.delivery {
            code(w, 0x71, "amqp:delivery-annotations:map", alt);
            v.write(w, alt)
        }
        if let Some(v) = &self.message {
            code(w, 0x72, "amqp:message-annotations:map", alt);
            v.write(w, alt)
        }
        if let Some(v) = &self.properties {
            v.write(w, alt)
        }
        if let Some(v) = &self.app {
            code(w, 0x74, "amqp:application-properties:map", alt);
            let mut b = Vec::new();
            for (k, x) in v {
                k.write(&mut b, false);
                x.write(&mut b, alt)
            }
            compound(w, alt, 0xc1, 2 * v.len(), &b)
        }
        for v in &self.data {
            code(w, 0x75, "amqp:data:binary", alt);
            v.write(w, alt)
        }
        for v in &self.sequence {
            code(w, 0x76, "amqp:amqp-sequence:list", alt);
            Variant::List(v.clone()).write(w, alt)
        }
        if let Some(v) = &self.value {
            code(w, 0x77, "amqp:amqp-value:*", alt);
            v.write(w, alt)
        }
        if let Some(v) = &self.footer {
            code(w, 0x78, "amqp:footer:map", alt);
            v.write(w, alt)
        }
    }
    /// Read the message and compare.
    pub fn check(&self, r: &mut R) {
        if let Some(v) = &self.header {
            v.check(r)
        }
        if let Some(v) = &self.delivery {
            assert!(r.descriptor() == 0x71, "delivery annotations expected");
            v.check(r)
        }
        if let Some(v) = &self.message {
            assert!(r.descriptor() == 0x72, "message annotations expected");
            v.check(r)
        }
        if let Some(v) = &self.properties {
            v.check(r)
        }
        if let Some(v) = &self.app {
            assert!(r.descriptor() == 0x74, "application properties expected");
            let (end, count) = r.map();
            assert!(count == 2 * v.len(), "item count of the application properties");
            // in any order
            let mut seen = vec![false; v.len()];
            for _ in 0..v.len() {
                let p = r.p;
                let mut found = false;
                for i in 0..v.len() {
                    r.p = p;
                    if !seen[i] && v[i].0.matches(r) {
                        v[i].1.check(r);
                        seen[i] = true;
                        found = true;
                        break;
                    }
                }
                assert!(found, "an application property that was not set");
            }
            r.at(end)
        }
        for v in &self.data {
            assert!(r.descriptor() == 0x75, "data expected");
            v.check(r)
        }
        for v in &self.sequence {
            assert!(r.descriptor() == 0x76, "sequence expected");
            Variant::List(v.clone()).check(r)
        }
        if let Some(v) = &self.value {
            assert!(r.descriptor() == 0x77, "value expected");
            v.check(r)
        }
        if self.data.is_empty() && self.sequence.is_empty() && self.value.is_none() {
            // a message has a body: empty data stands for none
            assert!(r.descriptor() == 0x75, "empty data expected");
            assert!(r.binary().is_empty(), "empty data expected");
        }
        if let Some(v) = &self.footer {
            assert!(r.descriptor() == 0x78, "footer expected");
            v.check(r)
        }
    }
    fn same_body(&self, b: &amqp_codec::MessageBody, decoded: bool) {
        let none = self.data.is_empty() && self.sequence.is_empty() && self.value.is_none();
        if decoded && none {
            assert!(b.data.len() == 1 && b.data[0].is_empty(), "body of a message without one");
        } else {
            assert!(b.data == self.data, "data of the message");
        }
        assert!(b.sequence.len() == self.sequence.len(), "sequences of the message");
        for (x, y) in b.sequence.iter().zip(self.sequence.iter()) {
            assert!(x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| alike(a, b)), "sequences of the message");
        }
        match (b.value(), &self.value) {
            (Some(x), Some(y)) => assert!(alike(x, y), "value of the message"),
            (None, None) => (),
            _ => panic!("value of the message"),
        }
        assert!(b.data() == b.data.get(0), "data of the body");
        assert!(b.messages.is_empty(), "nested messages out of nothing");
    }
    /// What the message shows of itself, after decoding or not.
    pub fn same_in(&self, m: &InMessage, decoded: bool) {
        assert!(m.header() == self.header.as_ref(), "header of the message");
        assert!(m.properties() == self.properties.as_ref(), "properties of the message");
        match &self.app {
            None => assert!(m.app_property("k").is_none(), "application property out of nothing"),
            Some(a) => {
                for (k, v) in a {
                    match m.app_property(k.as_str()) {
                        Some(x) => assert!(alike(x, v), "application property of the message"),
                        None => panic!("application property of the message lost"),
                    }
                }
                assert!(m.app_property("none").is_none(), "application property out of nothing")
            }
        }
        self.same_body(m.body(), decoded);
        assert!(m.value() == m.body().value(), "value of the body");
    }
    pub fn same_out(&self, m: &OutMessage, decoded: bool) {
        assert!(m.header() == self.header.as_ref(), "header of the message");
        assert!(m.properties() == self.properties.as_ref(), "properties of the message");
        match (&self.app, m.app_properties()) {
            (None, None) => (),
            (Some(a), Some(x)) => {
                assert!(a.len() == x.len(), "application properties of the message");
                for (i, (k, v)) in a.iter().enumerate() {
                    let mut found = false;
                    for (j, (l, u)) in x.iter().enumerate() {
                        if (decoded || i == j) && k.as_bytes() == l.as_bytes() {
                            assert!(alike(u, v), "application property of the message");
                            found = true
                        }
                    }
                    assert!(found, "application property of the message lost")
                }
            }
            _ => panic!("application properties of the message"),
        }
        self.same_body(m.body(), decoded);
        assert!(m.value() == m.body().value(), "value of the body");
    }
    /// By the setters; there are none for annotations and footer.
    pub fn build_in(&self) -> InMessage {
        let mut m = InMessage::default();
        if let Some(v) = &self.header {
            m = m.set_header(v.clone())
        }
        if let Some(v) = &self.properties {
            m = m.set_properties(|p| *p = v.clone())
        }
        if let Some(v) = &self.app {
            for (k, x) in v {
                m = m.set_app_property(k.clone(), x.clone())
            }
        }
        if let Some(v) = &self.value {
            m = m.set_value(v.clone())
        }
        if !self.data.is_empty() || !self.sequence.is_empty() {
            m = m.set_body(|b| {
                b.data = self.data.clone();
                b.sequence = self.sequence.clone()
            })
        }
        m
    }
    pub fn build_out(&self) -> OutMessage {
        let mut m = OutMessage::default();
        if let Some(v) = &self.header {
            m = m.set_header(v.clone())
        }
        if let Some(v) = &self.properties {
            m = m.set_properties(|p| *p = v.clone())
        }
        if let Some(v) = &self.app {
            for (k, x) in v {
                m = m.set_app_property(k.clone(), x.clone())
            }
        }
        if let Some(v) = &self.value {
            m = m.set_value(v.clone())
        }
        if !self.data.is_empty() || !self.sequence.is_empty() {
            m = m.set_body(|b| {
                b.data = self.data.clone();
                b.sequence = self.sequence.clone()
            })
        }
        m
    }
}
fn code(w: &mut Vec<u8>, c: u8, name: &str, alt: bool) {
    w.push(0);
    match if alt { sym::pick(3) } else { 0 } {
        0 => {
            w.push(0x53);
            w.push(c)
        }
        1 => {
            w.push(0x80);
            w.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, c])
        }
        _ => {
            w.push(0xa3);
            w.push(name.len() as u8);
            w.extend_from_slice(name.as_bytes())
        }
    }
}
