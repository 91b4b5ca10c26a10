//! The AMQP composite types as the specification defines them: field order,
//! descriptor, default values, and the wire forms of every field type.  For
//! each type there is a generator of symbolic values, a reference reader
//! (`check`) and a reference writer (`write`), none of which uses the codec
//! of the crate under test.
use crate::spec::R;
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use bytes::Bytes;
use chrono::TimeZone;
use hashbrown::HashMap;
use std::hash::Hash;
use uuid::Uuid;

/// How a value is drawn.
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// optional fields present, contents symbolic, one structure
    Poor,
    /// optional fields absent
    Bare,
    /// every structure in turn
    Rich,
    /// one variable-width part has this many octets
    Long(usize),
    /// optional fields present or absent in every combination
    Maybe,
}
use Mode::*;

pub trait Field: Sized {
    const LONG: bool = false;
    /// constructors of the type, besides null
    const CODES: &'static [u8];
    fn any(m: Mode) -> Self;
    /// Read the value from the wire and compare.
    fn check(&self, r: &mut R);
    /// Write a wire form; `alt`: any form the specification allows.
    fn write(&self, w: &mut Vec<u8>, alt: bool);
}

fn be(w: &mut Vec<u8>, v: u64, n: usize) {
    for i in 0..n {
        w.push((v >> (8 * (n - 1 - i))) as u8)
    }
}
fn form(alt: bool, n: usize) -> usize {
    if alt {
        sym::pick(n)
    } else {
        0
    }
}

impl Field for bool {
    const CODES: &'static [u8] = &[0x41, 0x42, 0x56];
    fn any(_: Mode) -> bool {
        sym::bool()
    }
    fn check(&self, r: &mut R) {
        assert!(r.boolean() == *self, "boolean on the wire");
    }
    fn write(&self, w: &mut Vec<u8>, alt: bool) {
        if form(alt, 2) == 0 {
            w.push(if *self { 0x41 } else { 0x42 })
        } else {
            w.push(0x56);
            w.push(if *self { 1 } else { 0 })
        }
    }
}
impl Field for u8 {
    const CODES: &'static [u8] = &[0x50];
    fn any(_: Mode) -> u8 {
        sym::u8()
    }
    fn check(&self, r: &mut R) {
        assert!(r.ubyte() == *self, "ubyte on the wire");
    }
    fn write(&self, w: &mut Vec<u8>, _: bool) {
        w.push(0x50);
        w.push(*self)
    }
}
impl Field for u16 {
    const CODES: &'static [u8] = &[0x60];
    fn any(_: Mode) -> u16 {
        sym::u16()
    }
    fn check(&self, r: &mut R) {
        assert!(r.ushort() == *self, "ushort on the wire");
    }
    fn write(&self, w: &mut Vec<u8>, _: bool) {
        w.push(0x60);
        be(w, *self as u64, 2)
    }
}
impl Field for u32 {
    const CODES: &'static [u8] = &[0x43, 0x52, 0x70];
    fn any(m: Mode) -> u32 {
        let v = sym::u32();
        if m != Rich {
            sym::assume(v > 255)
        }
        v
    }
    fn check(&self, r: &mut R) {
        assert!(r.uint() == *self, "uint on the wire");
    }
    fn write(&self, w: &mut Vec<u8>, alt: bool) {
        match form(alt, 3) {
            0 => {
                w.push(0x70);
                be(w, *self as u64, 4)
            }
            1 => {
                sym::assume(*self < 256);
                w.push(0x52);
                w.push(*self as u8)
            }
            _ => {
                sym::assume(*self == 0);
                w.push(0x43)
            }
        }
    }
}
impl Field for u64 {
    const CODES: &'static [u8] = &[0x44, 0x53, 0x80];
    fn any(m: Mode) -> u64 {
        let v = sym::u64();
        if m != Rich {
            sym::assume(v > 255)
        }
        v
    }
    fn check(&self, r: &mut R) {
        assert!(r.ulong() == *self, "ulong on the wire");
    }
    fn write(&self, w: &mut Vec<u8>, alt: bool) {
        match form(alt, 3) {
            0 => {
                w.push(0x80);
                be(w, *self, 8)
            }
            1 => {
                sym::assume(*self < 256);
                w.push(0x53);
                w.push(*self as u8)
            }
            _ => {
                sym::assume(*self == 0);
                w.push(0x44)
            }
        }
    }
}
impl Field for Uuid {
    const CODES: &'static [u8] = &[0x98];
    fn any(_: Mode) -> Uuid {
        let mut b = [0; 16];
        sym::fill(&mut b);
        Uuid::from_bytes(b)
    }
    fn check(&self, r: &mut R) {
        assert!(r.uuid() == *self.as_bytes(), "uuid on the wire");
    }
    fn write(&self, w: &mut Vec<u8>, _: bool) {
        w.push(0x98);
        w.extend_from_slice(self.as_bytes())
    }
}
impl Field for Timestamp {
    const CODES: &'static [u8] = &[0x83];
    fn any(_: Mode) -> Timestamp {
        // the day is fixed here, C03 covers the calendar
        let ms = sym::u32();
        sym::assume(ms < 1000);
        chrono::Utc.timestamp(1_311_704_463, ms * 1_000_000)
    }
    fn check(&self, r: &mut R) {
        let v = self.timestamp_millis();
        assert!(r.timestamp() == v, "timestamp on the wire");
    }
    fn write(&self, w: &mut Vec<u8>, _: bool) {
        w.push(0x83);
        be(w, self.timestamp_millis() as u64, 8)
    }
}

/// Octet counts of a variable-width value.
pub fn length(m: Mode) -> usize {
    match m {
        Rich => sym::pick(4),
        Long(n) => n,
        _ => 1,
    }
}
static mut WIDE: bool = false;
/// From here on texts consist of characters of two octets.
pub fn wide_texts() {
    unsafe { WIDE = true }
}
/// `n` octets of two-octet characters, after an ASCII character if `n` is odd;
/// the first and the last of them are free.
fn wide_letters(n: usize) -> Vec<u8> {
    let mut b = Vec::with_capacity(n);
    if n % 2 == 1 {
        b.push(sym::ascii())
    }
    while b.len() < n {
        if b.len() < 2 || b.len() + 2 == n {
            let (h, l) = (sym::u8(), sym::u8());
            sym::assume(h >= 0xc2 && h <= 0xdf && l >= 0x80 && l <= 0xbf);
            b.push(h);
            b.push(l)
        } else {
            b.extend_from_slice("\u{e9}".as_bytes())
        }
    }
    b
}
/// ASCII text; long texts have symbolic octets at both ends only.
pub fn letters(n: usize) -> Vec<u8> {
    if unsafe { WIDE } {
        return wide_letters(n);
    }
    let mut b = vec![b'a'; n];
    for i in 0..n {
        if i < 3 || i + 1 == n {
            b[i] = sym::ascii()
        }
    }
    b
}
pub fn text(b: Vec<u8>) -> ByteStr {
    unsafe { ByteStr::from_utf8_unchecked(Bytes::from(b)) }
}
fn variable(w: &mut Vec<u8>, alt: bool, c8: u8, b: &[u8]) {
    if b.len() < 256 && form(alt, 2) == 0 {
        w.push(c8);
        w.push(b.len() as u8)
    } else {
        w.push(c8 + 0x10);
        be(w, b.len() as u64, 4)
    }
    w.extend_from_slice(b)
}
impl Field for Bytes {
    const CODES: &'static [u8] = &[0xa0, 0xb0];
    const LONG: bool = true;
    fn any(m: Mode) -> Bytes {
        let n = length(m);
        let mut b = vec![0; n];
        for i in 0..n {
            if i < 3 || i + 1 == n {
                b[i] = sym::u8()
            }
        }
        Bytes::from(b)
    }
    fn check(&self, r: &mut R) {
        assert!(r.binary() == &self[..], "binary on the wire");
    }
    fn write(&self, w: &mut Vec<u8>, alt: bool) {
        variable(w, alt, 0xa0, self)
    }
}
impl Field for ByteStr {
    const CODES: &'static [u8] = &[0xa1, 0xb1];
    const LONG: bool = true;
    fn any(m: Mode) -> ByteStr {
        text(letters(length(m)))
    }
    fn check(&self, r: &mut R) {
        assert!(r.string() == self.as_bytes(), "string on the wire");
    }
    fn write(&self, w: &mut Vec<u8>, alt: bool) {
        variable(w, alt, 0xa1, self.as_bytes())
    }
}
impl Field for Symbol {
    const CODES: &'static [u8] = &[0xa3, 0xb3];
    const LONG: bool = true;
    fn any(m: Mode) -> Symbol {
        Symbol::from(ByteStr::any(m))
    }
    fn check(&self, r: &mut R) {
        assert!(r.symbol() == self.as_bytes(), "symbol on the wire");
    }
    fn write(&self, w: &mut Vec<u8>, alt: bool) {
        variable(w, alt, 0xa3, self.as_bytes())
    }
}
impl<T: Field> Field for Option<T> {
    const CODES: &'static [u8] = T::CODES;
    const LONG: bool = T::LONG;
    fn any(m: Mode) -> Option<T> {
        match m {
            Bare => None,
            Rich | Maybe => {
                if sym::pick(2) == 0 {
                    None
                } else {
                    Some(T::any(if m == Rich { Rich } else { Bare }))
                }
            }
            _ => Some(T::any(m)),
        }
    }
    fn check(&self, r: &mut R) {
        match self {
            Some(v) => v.check(r),
            None => assert!(r.null(), "null on the wire"),
        }
    }
    fn write(&self, w: &mut Vec<u8>, alt: bool) {
        match self {
            Some(v) => v.write(w, alt),
            None => w.push(0x40),
        }
    }
}

/// Header of a compound value: 8-bit form when it fits, or either.
pub fn compound(w: &mut Vec<u8>, alt: bool, c8: u8, count: usize, body: &[u8]) {
    if body.len() < 255 && count < 256 && form(alt, 2) == 0 {
        w.push(c8);
        w.push(body.len() as u8 + 1);
        w.push(count as u8)
    } else {
        w.push(c8 + 0x10);
        be(w, body.len() as u64 + 4, 4);
        be(w, count as u64, 4)
    }
    w.extend_from_slice(body)
}
pub fn list(w: &mut Vec<u8>, alt: bool, count: usize, body: &[u8]) {
    if alt && count == 0 && sym::pick(2) == 1 {
        w.push(0x45)
    } else {
        compound(w, alt, 0xc0, count, body)
    }
}
/// Array of symbols; the element constructor is sym32 or, with `alt`, sym8.
fn symbol_array(w: &mut Vec<u8>, alt: bool, items: &[Symbol]) {
    let small = form(alt, 2) == 1;
    let mut body = Vec::new();
    body.push(if small { 0xa3 } else { 0xb3 });
    for i in items {
        if small {
            body.push(i.len() as u8)
        } else {
            be(&mut body, i.len() as u64, 4)
        }
        body.extend_from_slice(i.as_bytes())
    }
    compound(w, alt, 0xe0, items.len(), &body)
}
impl Field for Multiple<Symbol> {
    const CODES: &'static [u8] = &[0xa3, 0xb3, 0xe0, 0xf0];
    const LONG: bool = true;
    fn any(m: Mode) -> Self {
        let n = match m {
            Rich => sym::pick(3),
            Long(_) => 2,
            _ => 1,
        };
        let mut v = Vec::new();
        for i in 0..n {
            v.push(Symbol::any(if i == 0 { m } else { Poor }))
        }
        Multiple(v)
    }
    fn check(&self, r: &mut R) {
        if self.len() == 1 {
            return self[0].check(r);
        }
        let (end, count, code) = r.array();
        assert!(count == self.len(), "element count of the array");
        for i in self.iter() {
            let n = match code {
                0xa3 => r.u8() as usize,
                0xb3 => r.be32() as usize,
                _ => panic!("array constructor is not a symbol"),
            };
            assert!(n == i.len(), "length of an array element");
            let mut k = 0;
            while k < n {
                assert!(r.u8() == i.as_bytes()[k], "octet of an array element");
                k += 1;
            }
        }
        r.at(end);
    }
    fn write(&self, w: &mut Vec<u8>, alt: bool) {
        if self.len() == 1 && form(alt, 2) == 0 {
            self[0].write(w, alt)
        } else {
            symbol_array(w, alt, &self.0)
        }
    }
}
impl<K: Field + Key + Eq + Hash, V: Field> Field for HashMap<K, V> {
    const CODES: &'static [u8] = &[0xc1, 0xd1];
    const LONG: bool = true;
    fn any(m: Mode) -> Self {
        let mut r = HashMap::new();
        let n = if m == Rich { sym::pick(3) } else { 1 };
        for i in 0..n {
            // one symbolic key at most: the order of a map depends on it
            let k = if n == 1 && m == Rich { K::any(Poor) } else { K::key(i) };
            r.insert(k, V::any(if i == 0 { m } else { Poor }));
        }
        r
    }
    fn check(&self, r: &mut R) {
        let (end, count) = r.map();
        assert!(count == 2 * self.len(), "item count of the map");
        if self.len() == 1 {
            for (k, v) in self {
                k.check(r);
                v.check(r)
            }
            return r.at(end);
        }
        let mut seen = vec![false; self.len()];
        for _ in 0..self.len() {
            let p = r.p;
            let mut i = 0;
            let mut found = false;
            for (k, v) in self {
                r.p = p;
                if !seen[i] && k.matches(r) {
                    v.check(r);
                    seen[i] = true;
                    found = true;
                    break;
                }
                i += 1;
            }
            assert!(found, "map entry on the wire is not in the map");
        }
        r.at(end);
    }
    fn write(&self, w: &mut Vec<u8>, alt: bool) {
        let mut b = Vec::new();
        for (k, v) in self {
            k.write(&mut b, alt);
            v.write(&mut b, alt)
        }
        compound(w, alt, 0xc1, 2 * self.len(), &b)
    }
}
/// Keys of maps.
pub trait Key {
    fn key(i: usize) -> Self;
    fn matches(&self, r: &mut R) -> bool;
}
impl Key for Symbol {
    fn key(i: usize) -> Symbol {
        Symbol::from(["k", "other"][i])
    }
    fn matches(&self, r: &mut R) -> bool {
        r.symbol() == self.as_bytes()
    }
}
impl Key for Str {
    fn key(i: usize) -> Str {
        Str::from(["k", "other"][i])
    }
    fn matches(&self, r: &mut R) -> bool {
        r.string() == self.as_bytes()
    }
}
impl Key for Variant {
    fn key(i: usize) -> Variant {
        Variant::Binary(Bytes::from_static([&b"k"[..], b"other"][i]))
    }
    fn matches(&self, r: &mut R) -> bool {
        match self {
            Variant::Binary(b) => r.b[r.p] == 0xa0 && r.binary() == &b[..],
            Variant::Ubyte(v) => r.b[r.p] == 0x50 && r.ubyte() == *v,
            Variant::Ushort(v) => r.b[r.p] == 0x60 && r.ushort() == *v,
            _ => panic!("key of another type"),
        }
    }
}
impl Field for Str {
    const CODES: &'static [u8] = &[0xa1, 0xb1];
    const LONG: bool = true;
    fn any(m: Mode) -> Str {
        Str::from(ByteStr::any(m))
    }
    fn check(&self, r: &mut R) {
        assert!(r.string() == self.as_bytes(), "string on the wire");
    }
    fn write(&self, w: &mut Vec<u8>, alt: bool) {
        variable(w, alt, 0xa1, self.as_bytes())
    }
}
impl Field for Variant {
    const CODES: &'static [u8] = &[0, 0x41, 0x42, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x60, 0x61, 0x70, 0x71, 0x72, 0x73, 0x80, 0x81, 0x82, 0x83, 0x98, 0xa0, 0xa1, 0xa3, 0xb0, 0xb1, 0xb3, 0xc0, 0xc1, 0xd0, 0xd1];
    const LONG: bool = true;
    fn any(m: Mode) -> Variant {
        let n = match m {
            Rich => sym::pick(7),
            Long(_) => 3,
            _ => 1,
        };
        match n {
            0 => Variant::Null,
            1 => Variant::Ushort(sym::u16()),
            2 => Variant::Boolean(sym::bool()),
            3 => Variant::String(Str::any(m)),
            4 => Variant::Symbol(Symbol::any(Poor)),
            5 => Variant::Binary(Bytes::any(Poor)),
            _ => Variant::List(List(vec![Variant::Null, Variant::Ubyte(sym::u8())])),
        }
    }
    fn check(&self, r: &mut R) {
        match self {
            Variant::Null => assert!(r.null(), "null on the wire"),
            Variant::Boolean(v) => v.check(r),
            Variant::Ubyte(v) => v.check(r),
            Variant::Ushort(v) => v.check(r),
            Variant::Uint(v) => v.check(r),
            Variant::Ulong(v) => v.check(r),
            Variant::Byte(v) => assert!(r.byte() == *v, "byte on the wire"),
            Variant::Short(v) => assert!(r.short() == *v, "short on the wire"),
            Variant::Int(v) => assert!(r.int() == *v, "int on the wire"),
            Variant::Long(v) => assert!(r.long() == *v, "long on the wire"),
            Variant::Float(v) => assert!(r.float() == v.to_bits(), "float on the wire"),
            Variant::Double(v) => assert!(r.double() == v.to_bits(), "double on the wire"),
            Variant::Char(v) => assert!(r.char() == *v as u32, "char on the wire"),
            Variant::Timestamp(v) => v.check(r),
            Variant::Uuid(v) => v.check(r),
            Variant::Binary(v) => v.check(r),
            Variant::String(v) => v.check(r),
            Variant::Symbol(v) => v.check(r),
            Variant::StaticSymbol(v) => assert!(r.symbol() == v.0.as_bytes(), "symbol on the wire"),
            Variant::List(v) => {
                let (end, count) = r.list();
                assert!(count == v.len(), "element count of the list");
                for i in v.iter() {
                    i.check(r)
                }
                r.at(end);
            }
            Variant::Map(v) => v.map.check(r),
            Variant::Described((d, v)) => {
                assert!(r.u8() == 0, "described value on the wire");
                match d {
                    Descriptor::Ulong(v) => v.check(r),
                    Descriptor::Symbol(v) => v.check(r),
                }
                v.check(r)
            }
        }
    }
    fn write(&self, w: &mut Vec<u8>, alt: bool) {
        match self {
            Variant::Null => w.push(0x40),
            Variant::Boolean(v) => v.write(w, alt),
            Variant::Ubyte(v) => v.write(w, alt),
            Variant::Ushort(v) => v.write(w, alt),
            Variant::Uint(v) => v.write(w, alt),
            Variant::Ulong(v) => v.write(w, alt),
            Variant::Byte(v) => {
                w.push(0x51);
                w.push(*v as u8)
            }
            Variant::Short(v) => {
                w.push(0x61);
                be(w, *v as u16 as u64, 2)
            }
            Variant::Int(v) => {
                if form(alt, 2) == 0 {
                    w.push(0x71);
                    be(w, *v as u32 as u64, 4)
                } else {
                    sym::assume(*v >= -128 && *v < 128);
                    w.push(0x54);
                    w.push(*v as u8)
                }
            }
            Variant::Long(v) => {
                if form(alt, 2) == 0 {
                    w.push(0x81);
                    be(w, *v as u64, 8)
                } else {
                    sym::assume(*v >= -128 && *v < 128);
                    w.push(0x55);
                    w.push(*v as u8)
                }
            }
            Variant::Float(v) => {
                w.push(0x72);
                be(w, v.to_bits() as u64, 4)
            }
            Variant::Double(v) => {
                w.push(0x82);
                be(w, v.to_bits(), 8)
            }
            Variant::Char(v) => {
                w.push(0x73);
                be(w, *v as u64, 4)
            }
            Variant::Timestamp(v) => v.write(w, alt),
            Variant::Uuid(v) => v.write(w, alt),
            Variant::Binary(v) => v.write(w, alt),
            Variant::String(v) => v.write(w, alt),
            Variant::Symbol(v) => v.write(w, alt),
            Variant::StaticSymbol(v) => variable(w, alt, 0xa3, v.0.as_bytes()),
            Variant::List(v) => {
                let mut b = Vec::new();
                for i in v.iter() {
                    i.write(&mut b, alt)
                }
                list(w, alt, v.len(), &b)
            }
            Variant::Map(v) => v.map.write(w, alt),
            Variant::Described((d, v)) => {
                w.push(0);
                match d {
                    Descriptor::Ulong(v) => v.write(w, alt),
                    Descriptor::Symbol(v) => v.write(w, alt),
                }
                v.write(w, alt)
            }
        }
    }
}
impl Field for MessageId {
    const CODES: &'static [u8] = &[0x44, 0x53, 0x80, 0x98, 0xa0, 0xb0, 0xa1, 0xb1];
    const LONG: bool = true;
    fn any(m: Mode) -> MessageId {
        let n = match m {
            Rich => sym::pick(4),
            Long(_) => 3,
            _ => 0,
        };
        match n {
            0 => MessageId::Ulong(u64::any(m)),
            1 => MessageId::Uuid(Uuid::any(m)),
            2 => MessageId::Binary(Bytes::any(m)),
            _ => MessageId::String(ByteStr::any(m)),
        }
    }
    fn check(&self, r: &mut R) {
        match self {
            MessageId::Ulong(v) => v.check(r),
            MessageId::Uuid(v) => v.check(r),
            MessageId::Binary(v) => v.check(r),
            MessageId::String(v) => v.check(r),
        }
    }
    fn write(&self, w: &mut Vec<u8>, alt: bool) {
        match self {
            MessageId::Ulong(v) => v.write(w, alt),
            MessageId::Uuid(v) => v.write(w, alt),
            MessageId::Binary(v) => v.write(w, alt),
            MessageId::String(v) => v.write(w, alt),
        }
    }
}

/// Restricted types: the choices with their specified source values.
macro_rules! choices {
    ($t:ty: $src:ident [$($v:path => $w:expr),*]) => {
        impl Field for $t {
            const CODES: &'static [u8] = choices!(@codes $src);
            fn any(m: Mode) -> $t {
                let all = [$($v),*];
                all[if m == Rich { sym::pick(all.len()) } else { all.len() - 1 }].clone()
            }
            fn check(&self, r: &mut R) {
                $( if *self == $v { choices!(@check $src r $w) } )*
            }
            fn write(&self, w: &mut Vec<u8>, alt: bool) {
                $( if *self == $v { choices!(@write $src w alt $w) } )*
            }
        }
        impl Choices for $t {
            const N: usize = [$(stringify!($v)),*].len();
            fn nth(i: usize) -> $t {
                [$($v),*][i].clone()
            }
        }
    };
    (@check symbol $r:ident $w:expr) => { assert!($r.symbol() == $w.as_bytes(), "symbol of the choice") };
    (@check $src:ident $r:ident $w:expr) => { assert!($r.$src() == $w, "value of the choice") };
    (@write symbol $b:ident $alt:ident $w:expr) => { variable($b, $alt, 0xa3, $w.as_bytes()) };
    (@codes symbol) => { &[0xa3, 0xb3] };
    (@codes ubyte) => { &[0x50] };
    (@codes uint) => { &[0x43, 0x52, 0x70] };
    (@codes boolean) => { &[0x41, 0x42, 0x56] };
    (@write ubyte $b:ident $alt:ident $w:expr) => { ($w as u8).write($b, $alt) };
    (@write uint $b:ident $alt:ident $w:expr) => { ($w as u32).write($b, $alt) };
    (@write boolean $b:ident $alt:ident $w:expr) => { ($w).write($b, $alt) };
}
pub trait Choices: Field {
    const N: usize;
    fn nth(i: usize) -> Self;
}
choices!(Role: boolean [Role::Sender => false, Role::Receiver => true]);
choices!(SenderSettleMode: ubyte [SenderSettleMode::Unsettled => 0, SenderSettleMode::Settled => 1, SenderSettleMode::Mixed => 2]);
choices!(ReceiverSettleMode: ubyte [ReceiverSettleMode::First => 0, ReceiverSettleMode::Second => 1]);
choices!(SaslCode: ubyte [SaslCode::Ok => 0, SaslCode::Auth => 1, SaslCode::Sys => 2, SaslCode::SysPerm => 3, SaslCode::SysTemp => 4]);
choices!(TerminusDurability: uint [TerminusDurability::None => 0, TerminusDurability::Configuration => 1, TerminusDurability::UnsettledState => 2]);
choices!(TerminusExpiryPolicy: symbol [TerminusExpiryPolicy::LinkDetach => "link-detach", TerminusExpiryPolicy::SessionEnd => "session-end",
    TerminusExpiryPolicy::ConnectionClose => "connection-close", TerminusExpiryPolicy::Never => "never"]);
choices!(AmqpError: symbol [AmqpError::InternalError => "amqp:internal-error", AmqpError::NotFound => "amqp:not-found",
    AmqpError::UnauthorizedAccess => "amqp:unauthorized-access", AmqpError::DecodeError => "amqp:decode-error",
    AmqpError::ResourceLimitExceeded => "amqp:resource-limit-exceeded", AmqpError::NotAllowed => "amqp:not-allowed",
    AmqpError::InvalidField => "amqp:invalid-field", AmqpError::NotImplemented => "amqp:not-implemented",
    AmqpError::ResourceLocked => "amqp:resource-locked", AmqpError::PreconditionFailed => "amqp:precondition-failed",
    AmqpError::ResourceDeleted => "amqp:resource-deleted", AmqpError::IllegalState => "amqp:illegal-state",
    AmqpError::FrameSizeTooSmall => "amqp:frame-size-too-small"]);
choices!(ConnectionError: symbol [ConnectionError::ConnectionForced => "amqp:connection:forced",
    ConnectionError::FramingError => "amqp:connection:framing-error", ConnectionError::Redirect => "amqp:connection:redirect"]);
choices!(SessionError: symbol [SessionError::WindowViolation => "amqp:session:window-violation", SessionError::ErrantLink => "amqp:session:errant-link",
    SessionError::HandleInUse => "amqp:session:handle-in-use", SessionError::UnattachedHandle => "amqp:session:unattached-handle"]);
choices!(LinkError: symbol [LinkError::DetachForced => "amqp:link:detach-forced", LinkError::TransferLimitExceeded => "amqp:link:transfer-limit-exceeded",
    LinkError::MessageSizeExceeded => "amqp:link:message-size-exceeded", LinkError::Redirect => "amqp:link:redirect", LinkError::Stolen => "amqp:link:stolen"]);

impl Field for ErrorCondition {
    const CODES: &'static [u8] = &[0xa3, 0xb3];
    fn any(m: Mode) -> ErrorCondition {
        if m != Rich {
            return ErrorCondition::LinkError(LinkError::Stolen);
        }
        match sym::pick(5) {
            0 => ErrorCondition::AmqpError(AmqpError::any(m)),
            1 => ErrorCondition::ConnectionError(ConnectionError::any(m)),
            2 => ErrorCondition::SessionError(SessionError::any(m)),
            3 => ErrorCondition::LinkError(LinkError::any(m)),
            _ => ErrorCondition::Custom(Symbol::any(Poor)),
        }
    }
    fn check(&self, r: &mut R) {
        match self {
            ErrorCondition::AmqpError(v) => v.check(r),
            ErrorCondition::ConnectionError(v) => v.check(r),
            ErrorCondition::SessionError(v) => v.check(r),
            ErrorCondition::LinkError(v) => v.check(r),
            ErrorCondition::Custom(v) => v.check(r),
        }
    }
    fn write(&self, w: &mut Vec<u8>, alt: bool) {
        match self {
            ErrorCondition::AmqpError(v) => v.write(w, alt),
            ErrorCondition::ConnectionError(v) => v.write(w, alt),
            ErrorCondition::SessionError(v) => v.write(w, alt),
            ErrorCondition::LinkError(v) => v.write(w, alt),
            ErrorCondition::Custom(v) => v.write(w, alt),
        }
    }
}
impl Field for DistributionMode {
    const CODES: &'static [u8] = &[0xa3, 0xb3];
    fn any(m: Mode) -> DistributionMode {
        match if m == Rich { sym::pick(3) } else { 2 } {
            0 => DistributionMode::Move,
            1 => DistributionMode::Copy,
            _ => DistributionMode::Custom(Symbol::any(Poor)),
        }
    }
    fn check(&self, r: &mut R) {
        let s = r.symbol();
        assert!(
            match self {
                DistributionMode::Move => s == &b"move"[..],
                DistributionMode::Copy => s == &b"copy"[..],
                DistributionMode::Custom(v) => s == v.as_bytes(),
            },
            "distribution mode on the wire"
        );
    }
    fn write(&self, w: &mut Vec<u8>, alt: bool) {
        match self {
            DistributionMode::Move => variable(w, alt, 0xa3, b"move"),
            DistributionMode::Copy => variable(w, alt, 0xa3, b"copy"),
            DistributionMode::Custom(v) => v.write(w, alt),
        }
    }
}

/// A described list of named fields.
pub trait Composite: Field + Clone + PartialEq + amqp_codec::Decode + amqp_codec::Encode {
    const CODE: u64;
    const NAME: &'static str;
    const N: usize;
    /// Field `free` drawn with mode `m`, the others with mode `other`.
    fn draw(free: usize, m: Mode, other: Mode) -> Self;
    fn draw2(i: usize, j: usize) -> Self;
    fn fields(&self, r: &mut R);
    fn write_field(&self, i: usize, w: &mut Vec<u8>, alt: bool);
    /// Give field `i` the value it has when it is absent; false: mandatory.
    fn omit(&mut self, i: usize) -> bool;
    fn long(i: usize) -> bool;
    fn equal(&self, i: usize, o: &Self) -> bool;
    fn field_name(i: usize) -> &'static str;
    /// Every accessor answers with its field.
    fn accessors(&self);
    fn codes(i: usize) -> &'static [u8];
}
/// What an accessor answers for a field `F`.
pub trait Shows<F> {
    fn shows(&self, f: &F) -> bool;
}
impl<T: PartialEq> Shows<T> for T {
    fn shows(&self, f: &T) -> bool {
        *self == *f
    }
}
impl<'a, T: PartialEq> Shows<T> for &'a T {
    fn shows(&self, f: &T) -> bool {
        **self == *f
    }
}
impl<'a, T: PartialEq> Shows<Option<T>> for Option<&'a T> {
    fn shows(&self, f: &Option<T>) -> bool {
        match (self, f) {
            (Some(a), Some(b)) => **a == *b,
            (None, None) => true,
            _ => false,
        }
    }
}
impl<'a> Shows<ByteStr> for &'a str {
    fn shows(&self, f: &ByteStr) -> bool {
        **self == **f
    }
}
impl<'a> Shows<Option<ByteStr>> for Option<&'a str> {
    fn shows(&self, f: &Option<ByteStr>) -> bool {
        match (self, f) {
            (Some(a), Some(b)) => **a == **b,
            (None, None) => true,
            _ => false,
        }
    }
}
pub fn descriptor<T: Composite>(w: &mut Vec<u8>, alt: bool) {
    w.push(0);
    match form(alt, 4) {
        0 => {
            w.push(0x53);
            w.push(T::CODE as u8)
        }
        1 => {
            w.push(0x80);
            be(w, T::CODE, 8)
        }
        2 => variable(w, false, 0xa3, T::NAME.as_bytes()),
        _ => {
            w.push(0xb3);
            be(w, T::NAME.len() as u64, 4);
            w.extend_from_slice(T::NAME.as_bytes())
        }
    }
}
pub fn composite_check<T: Composite>(v: &T, r: &mut R) {
    assert!(r.descriptor() == T::CODE, "descriptor of the composite");
    let (end, count) = r.list();
    assert!(count == T::N, "field count of the composite");
    v.fields(r);
    r.at(end);
}
/// The first `n` fields; the wire form of field `alt` is free.
pub fn composite_write<T: Composite>(v: &T, w: &mut Vec<u8>, n: usize, alt: usize, header: bool) {
    let mut b = Vec::new();
    for i in 0..n {
        v.write_field(i, &mut b, i == alt)
    }
    descriptor::<T>(w, header);
    list(w, header, n, &b)
}

macro_rules! composite {
    ($t:ident $code:literal $name:literal [$($f:ident: $ft:ty = $d:tt,)*] $($extra:ident)?) => {
        impl Field for $t {
            const LONG: bool = false $(|| <$ft as Field>::LONG)*;
            const CODES: &'static [u8] = &[0];
            fn any(m: Mode) -> $t {
                match m {
                    Rich => {
                        // no field, or one field in full, next to absent or present others
                        let n = <$t as Composite>::N;
                        if n == 0 { return <$t as Composite>::draw(0, Poor, Poor) }
                        let k = sym::pick(n + 1);
                        if k == n { <$t as Composite>::draw(k, Bare, Bare) } else { <$t as Composite>::draw(k, Rich, Poor) }
                    }
                    Long(_) => {
                        let mut k = 0;
                        while !<$t as Composite>::long(k) { k += 1 }
                        <$t as Composite>::draw(k, m, Bare)
                    }
                    _ => <$t as Composite>::draw(999, m, m),
                }
            }
            fn check(&self, r: &mut R) {
                composite_check(self, r)
            }
            fn write(&self, w: &mut Vec<u8>, alt: bool) {
                composite_write(self, w, <$t as Composite>::N, 999, alt)
            }
        }
        impl Composite for $t {
            const CODE: u64 = $code;
            const NAME: &'static str = $name;
            const N: usize = { let a: &[&str] = &[$(stringify!($f)),*]; a.len() };
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn draw(free: usize, m: Mode, other: Mode) -> $t {
                let mut i = 0;
                $( let $f = { i += 1; <$ft as Field>::any(if i - 1 == free { m } else { other }) }; )*
                $t { $($f,)* $($extra: None,)? }
            }
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn draw2(a: usize, b: usize) -> $t {
                let mut i = 0;
                $( let $f = { i += 1; <$ft as Field>::any(if i - 1 == a || i - 1 == b { Rich } else { Poor }) }; )*
                $t { $($f,)* $($extra: None,)? }
            }
            #[allow(unused_variables)]
            fn fields(&self, r: &mut R) {
                $( self.$f.check(r); )*
            }
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn write_field(&self, n: usize, w: &mut Vec<u8>, alt: bool) {
                let mut i = 0;
                $( if i == n { self.$f.write(w, alt) } i += 1; )*
            }
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn omit(&mut self, n: usize) -> bool {
                let mut i = 0;
                $( if i == n { return composite!(@omit self $f $d) } i += 1; )*
                true
            }
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn long(n: usize) -> bool {
                [$(<$ft as Field>::LONG),*].get(n).map_or(true, |v: &bool| *v)
            }
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn equal(&self, n: usize, o: &Self) -> bool {
                let mut i = 0;
                $( if i == n { return self.$f == o.$f } i += 1; )*
                true
            }
            fn field_name(n: usize) -> &'static str {
                let a: &[&'static str] = &[$(stringify!($f)),*];
                a[n]
            }
            fn accessors(&self) {
                $( assert!(self.$f().shows(&self.$f), "accessor of a field"); )*
            }
            fn codes(n: usize) -> &'static [u8] {
                let a: &[&'static [u8]] = &[$(<$ft as Field>::CODES),*];
                a[n]
            }
        }
    };
    (@omit $s:ident $f:ident mandatory) => { false };
    (@omit $s:ident $f:ident $d:expr) => {{ $s.$f = $d; true }};
}

composite!(Error 0x1d "amqp:error:list" [
    condition: ErrorCondition = mandatory,
    description: Option<ByteStr> = None,
    info: Option<Fields> = None,
]);
composite!(Open 0x10 "amqp:open:list" [
    container_id: ByteStr = mandatory,
    hostname: Option<ByteStr> = None,
    max_frame_size: u32 = 4294967295,
    channel_max: u16 = 65535,
    idle_time_out: Option<u32> = None,
    outgoing_locales: Option<Symbols> = None,
    incoming_locales: Option<Symbols> = None,
    offered_capabilities: Option<Symbols> = None,
    desired_capabilities: Option<Symbols> = None,
    properties: Option<Fields> = None,
]);
composite!(Begin 0x11 "amqp:begin:list" [
    remote_channel: Option<u16> = None,
    next_outgoing_id: u32 = mandatory,
    incoming_window: u32 = mandatory,
    outgoing_window: u32 = mandatory,
    handle_max: u32 = 4294967295,
    offered_capabilities: Option<Symbols> = None,
    desired_capabilities: Option<Symbols> = None,
    properties: Option<Fields> = None,
]);
composite!(Attach 0x12 "amqp:attach:list" [
    name: ByteStr = mandatory,
    handle: u32 = mandatory,
    role: Role = mandatory,
    snd_settle_mode: SenderSettleMode = { SenderSettleMode::Mixed },
    rcv_settle_mode: ReceiverSettleMode = { ReceiverSettleMode::First },
    source: Option<Source> = None,
    target: Option<Target> = None,
    unsettled: Option<Map> = None,
    incomplete_unsettled: bool = false,
    initial_delivery_count: Option<u32> = None,
    max_message_size: Option<u64> = None,
    offered_capabilities: Option<Symbols> = None,
    desired_capabilities: Option<Symbols> = None,
    properties: Option<Fields> = None,
]);
composite!(Flow 0x13 "amqp:flow:list" [
    next_incoming_id: Option<u32> = None,
    incoming_window: u32 = mandatory,
    next_outgoing_id: u32 = mandatory,
    outgoing_window: u32 = mandatory,
    handle: Option<u32> = None,
    delivery_count: Option<u32> = None,
    link_credit: Option<u32> = None,
    available: Option<u32> = None,
    drain: bool = false,
    echo: bool = false,
    properties: Option<Fields> = None,
]);
composite!(Transfer 0x14 "amqp:transfer:list" [
    handle: u32 = mandatory,
    delivery_id: Option<u32> = None,
    delivery_tag: Option<Bytes> = None,
    message_format: Option<u32> = None,
    settled: Option<bool> = None,
    more: bool = false,
    rcv_settle_mode: Option<ReceiverSettleMode> = None,
    state: Option<DeliveryState> = None,
    resume: bool = false,
    aborted: bool = false,
    batchable: bool = false,
] body);
composite!(Disposition 0x15 "amqp:disposition:list" [
    role: Role = mandatory,
    first: u32 = mandatory,
    last: Option<u32> = None,
    settled: bool = false,
    state: Option<DeliveryState> = None,
    batchable: bool = false,
]);
composite!(Detach 0x16 "amqp:detach:list" [
    handle: u32 = mandatory,
    closed: bool = false,
    error: Option<Error> = None,
]);
composite!(End 0x17 "amqp:end:list" [error: Option<Error> = None,]);
composite!(Close 0x18 "amqp:close:list" [error: Option<Error> = None,]);
composite!(Received 0x23 "amqp:received:list" [
    section_number: u32 = mandatory,
    section_offset: u64 = mandatory,
]);
composite!(Accepted 0x24 "amqp:accepted:list" []);
composite!(Rejected 0x25 "amqp:rejected:list" [error: Option<Error> = None,]);
composite!(Released 0x26 "amqp:released:list" []);
composite!(Modified 0x27 "amqp:modified:list" [
    delivery_failed: Option<bool> = None,
    undeliverable_here: Option<bool> = None,
    message_annotations: Option<Fields> = None,
]);
composite!(Source 0x28 "amqp:source:list" [
    address: Option<ByteStr> = None,
    durable: TerminusDurability = { TerminusDurability::None },
    expiry_policy: TerminusExpiryPolicy = { TerminusExpiryPolicy::SessionEnd },
    timeout: u32 = 0,
    dynamic: bool = false,
    dynamic_node_properties: Option<Fields> = None,
    distribution_mode: Option<DistributionMode> = None,
    filter: Option<FilterSet> = None,
    default_outcome: Option<Outcome> = None,
    outcomes: Option<Symbols> = None,
    capabilities: Option<Symbols> = None,
]);
composite!(Target 0x29 "amqp:target:list" [
    address: Option<ByteStr> = None,
    durable: TerminusDurability = { TerminusDurability::None },
    expiry_policy: TerminusExpiryPolicy = { TerminusExpiryPolicy::SessionEnd },
    timeout: u32 = 0,
    dynamic: bool = false,
    dynamic_node_properties: Option<Fields> = None,
    capabilities: Option<Symbols> = None,
]);
composite!(SaslMechanisms 0x40 "amqp:sasl-mechanisms:list" [sasl_server_mechanisms: Symbols = mandatory,]);
composite!(SaslInit 0x41 "amqp:sasl-init:list" [
    mechanism: Symbol = mandatory,
    initial_response: Option<Bytes> = None,
    hostname: Option<ByteStr> = None,
]);
composite!(SaslChallenge 0x42 "amqp:sasl-challenge:list" [challenge: Bytes = mandatory,]);
composite!(SaslResponse 0x43 "amqp:sasl-response:list" [response: Bytes = mandatory,]);
composite!(SaslOutcome 0x44 "amqp:sasl-outcome:list" [
    code: SaslCode = mandatory,
    additional_data: Option<Bytes> = None,
]);
composite!(Header 0x70 "amqp:header:list" [
    durable: bool = false,
    priority: u8 = 4,
    ttl: Option<u32> = None,
    first_acquirer: bool = false,
    delivery_count: u32 = 0,
]);
composite!(Properties 0x73 "amqp:properties:list" [
    message_id: Option<MessageId> = None,
    user_id: Option<Bytes> = None,
    to: Option<ByteStr> = None,
    subject: Option<ByteStr> = None,
    reply_to: Option<ByteStr> = None,
    correlation_id: Option<MessageId> = None,
    content_type: Option<Symbol> = None,
    content_encoding: Option<Symbol> = None,
    absolute_expiry_time: Option<Timestamp> = None,
    creation_time: Option<Timestamp> = None,
    group_id: Option<ByteStr> = None,
    group_sequence: Option<u32> = None,
    reply_to_group_id: Option<ByteStr> = None,
]);

macro_rules! union {
    ($t:ident [$($v:ident),*] $poor:ident) => {
        impl Field for $t {
            const LONG: bool = true;
            const CODES: &'static [u8] = &[0];
            fn any(m: Mode) -> $t {
                let n = [$(stringify!($v)),*].len();
                match m {
                    Rich => {
                        let k = sym::pick(n);
                        let mut i = 0;
                        $( if i == k { return $t::$v(Field::any(m)) } i += 1; )*
                        let _ = i;
                    }
                    Long(_) => return $t::Rejected(Field::any(m)),
                    _ => (),
                }
                $t::$poor(Field::any(m))
            }
            fn check(&self, r: &mut R) {
                match self { $($t::$v(v) => v.check(r)),* }
            }
            fn write(&self, w: &mut Vec<u8>, alt: bool) {
                match self { $($t::$v(v) => v.write(w, alt)),* }
            }
        }
    };
}
union!(DeliveryState [Received, Accepted, Rejected, Released, Modified] Received);
union!(Outcome [Accepted, Rejected, Released, Modified] Modified);

/// One field in every structure, the others all present or all absent.
pub fn one_free<T: Composite>() -> T {
    if T::N == 0 {
        return T::draw(0, Mode::Poor, Mode::Poor);
    }
    let k = sym::pick(T::N);
    let others = if sym::pick(2) == 0 { Mode::Poor } else { Mode::Bare };
    T::draw(k, Mode::Rich, others)
}
/// Two fields in every structure, the others present.
pub fn two_free<T: Composite>() -> T {
    let k = sym::pick(T::N * T::N);
    let (i, j) = (k / T::N, k % T::N);
    sym::assume(i < j);
    T::draw2(i, j)
}
/// Every combination of present and absent fields.
pub fn presence<T: Composite>() -> T {
    T::draw(999, Mode::Maybe, Mode::Maybe)
}
/// Bodies around the size at which the list header changes (255 octets).
pub fn boundary<T: Composite>() -> T {
    let k = sym::pick(T::N);
    sym::assume(T::long(k));
    // size of the encoding with an empty text, by the reference writer
    let mut w = Vec::new();
    T::draw(k, Mode::Long(0), Mode::Bare).write(&mut w, false);
    let n = 257 - w.len() + sym::pick(10);
    T::draw(k, Mode::Long(n), Mode::Bare)
}
/// Bodies around 65536 octets.
pub fn large<T: Composite>() -> T {
    with_text(&[65500, 65536, 70000])
}
/// One variable-width field of each of these lengths.
pub fn with_text<T: Composite>(lengths: &[usize]) -> T {
    let k = sym::pick(T::N);
    sym::assume(T::long(k));
    T::draw(k, Mode::Long(lengths[sym::pick(lengths.len())]), Mode::Bare)
}
/// One field of wide characters, with fewer than 256 of them in more than 255 octets included.
pub fn wide<T: Composite>() -> T {
    wide_texts();
    with_text(&[2, 3, 100, 254, 255, 256, 300])
}

macro_rules! frames {
    ($u:ident [$($t:ident),*]) => { $( impl InFrame for $t {
        type Union = $u;
        fn wrap(self) -> $u { $u::$t(self) }
        fn unwrap(u: $u) -> Option<$t> { if let $u::$t(v) = u { Some(v) } else { None } }
        const LABEL: &'static str = stringify!($t);
    } )* };
}
/// Bodies of frames.
pub trait InFrame: Composite {
    type Union;
    const LABEL: &'static str;
    fn wrap(self) -> Self::Union;
    fn unwrap(u: Self::Union) -> Option<Self>;
}
frames!(Frame [Open, Begin, Attach, Flow, Transfer, Disposition, Detach, End, Close]);
frames!(SaslFrameBody [SaslMechanisms, SaslInit, SaslChallenge, SaslResponse, SaslOutcome]);

/// The `k`th of the 24 composite types.
pub const COMPOSITES: usize = 24;
#[macro_export]
macro_rules! each_composite {
    ($k:expr, $f:ident) => {
        match $k {
            0 => $f::<Error>(),
            1 => $f::<Open>(),
            2 => $f::<Begin>(),
            3 => $f::<Attach>(),
            4 => $f::<Flow>(),
            5 => $f::<Transfer>(),
            6 => $f::<Disposition>(),
            7 => $f::<Detach>(),
            8 => $f::<End>(),
            9 => $f::<Close>(),
            10 => $f::<SaslMechanisms>(),
            11 => $f::<SaslInit>(),
            12 => $f::<SaslChallenge>(),
            13 => $f::<SaslResponse>(),
            14 => $f::<SaslOutcome>(),
            15 => $f::<Source>(),
            16 => $f::<Target>(),
            17 => $f::<Header>(),
            18 => $f::<Properties>(),
            19 => $f::<Received>(),
            20 => $f::<Accepted>(),
            21 => $f::<Rejected>(),
            22 => $f::<Released>(),
            _ => $f::<Modified>(),
        }
    };
}
