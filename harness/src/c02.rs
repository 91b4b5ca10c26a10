//! C02: binary, string and symbol values survive encoding, have the specified
//! wire form, and text is valid UTF-8.
use crate::fields::{letters, text};
use crate::spec::{enc, ok, same, whole, R};
use crate::sym;
use amqp_codec::types::*;
use amqp_codec::{AmqpParseError, Decode};
use bytes::Bytes;

/// Octets with free ends; the lengths around the width switches.
const LENGTHS: [usize; 9] = [0, 1, 2, 5, 254, 255, 256, 257, 300];
fn blob() -> Vec<u8> {
    filled(LENGTHS[sym::pick(LENGTHS.len())])
}
fn filled(n: usize) -> Vec<u8> {
    let mut b = vec![7; n];
    for i in 0..n {
        if i < 4 || i + 2 > n {
            b[i] = sym::u8()
        }
    }
    b
}
/// One to `n` arbitrary scalar values as UTF-8.
fn utf8(n: usize) -> Vec<u8> {
    let mut b = Vec::new();
    for _ in 0..sym::pick(n) + 1 {
        let c = sym::char();
        let mut t = [0; 4];
        b.extend_from_slice(c.encode_utf8(&mut t).as_bytes())
    }
    b
}
fn ascii() -> Vec<u8> {
    letters(LENGTHS[sym::pick(LENGTHS.len())])
}
/// A long text of wide characters: fewer than 256 characters in more than 255
/// octets, and the counts around both switches; the first and last character are free.
fn wide() -> Vec<u8> {
    const COUNTS: [(&str, &[usize]); 3] = [
        ("\u{e9}", &[125, 126, 127, 200, 254, 255]),
        ("\u{20ac}", &[83, 84, 85, 200, 254, 255]),
        ("\u{1f600}", &[62, 63, 64, 200, 254, 255]),
    ];
    let (c, counts) = COUNTS[sym::pick(COUNTS.len())];
    let mut b = utf8(1);
    for _ in 0..counts[sym::pick(counts.len())] {
        b.extend_from_slice(c.as_bytes())
    }
    b
}
/// The header must be the narrow one exactly when the length fits one octet.
fn header(e: &[u8], code8: u8, n: usize) {
    if n < 256 {
        assert!(e[0] == code8 && e[1] as usize == n && e.len() == 2 + n, "header of a value of at most 255 octets");
    } else {
        assert!(e[0] == code8 + 0x10 && e.len() == 5 + n, "header of a value of more than 255 octets");
        assert!(e[1] == 0 && (e[2] as usize) << 16 | (e[3] as usize) << 8 | e[4] as usize == n, "size of the value");
    }
}
fn binary(b: Vec<u8>) {
    let v = Bytes::from(b.clone());
    let e = enc(&v);
    header(&e, 0xa0, b.len());
    let mut r = R::new(&e);
    assert!(r.binary() == &b[..], "octets on the wire");
    r.end();
    let d: Bytes = whole(Bytes::decode(&e));
    assert!(same(&d, &b), "binary changed");
    let d: Option<Bytes> = whole(Option::<Bytes>::decode(&enc(&Some(v.clone()))));
    assert!(d.map_or(false, |d| same(&d, &b)), "optional binary changed");
    let x = Variant::Binary(v);
    let e2 = enc(&x);
    assert!(same(&e, &e2), "variant has another wire form");
    assert!(whole(Variant::decode(&e2)) == x, "variant changed");
}
fn string(b: Vec<u8>) {
    let v = text(b.clone());
    let e = enc(&v);
    header(&e, 0xa1, b.len());
    let mut r = R::new(&e);
    assert!(r.string() == &b[..], "octets on the wire");
    r.end();
    let d: ByteStr = whole(ByteStr::decode(&e));
    assert!(same(d.as_bytes(), &b), "string changed");
    let d: Str = whole(Str::decode(&e));
    assert!(same(d.as_bytes(), &b) && d.len() == b.len(), "string changed");
    let d: Option<ByteStr> = whole(Option::<ByteStr>::decode(&e));
    assert!(d.map_or(false, |d| same(d.as_bytes(), &b)), "optional string changed");
    let s: &str = unsafe { std::str::from_utf8_unchecked(&b) };
    assert!(same(&enc(s), &e), "str has another wire form");
    assert!(same(&enc(&Str::from_str(s)), &e), "Str has another wire form");
    assert!(same(&enc(&Str::Static(unsafe { &*(s as *const str) })), &e), "static Str has another wire form");
    let x = Variant::String(Str::from(v));
    assert!(same(&enc(&x), &e), "variant has another wire form");
    let y: Variant = whole(Variant::decode(&e));
    match &y {
        Variant::String(s) => assert!(same(s.as_bytes(), &b), "variant changed"),
        _ => panic!("variant of another type"),
    }
    assert!(y == x, "variant changed");
}
fn symbol(b: Vec<u8>) {
    let s: &str = unsafe { std::str::from_utf8_unchecked(&b) };
    let v = Symbol::from_slice(s);
    let e = enc(&v);
    header(&e, 0xa3, b.len());
    let mut r = R::new(&e);
    assert!(r.symbol() == &b[..], "octets on the wire");
    r.end();
    let d: Symbol = whole(Symbol::decode(&e));
    assert!(same(d.as_bytes(), &b) && d.len() == b.len() && d == v, "symbol changed");
    let fixed: &'static str = unsafe { &*(s as *const str) };
    assert!(same(&enc(&StaticSymbol(fixed)), &e), "static symbol has another wire form");
    assert!(same(&enc(&Symbol::from(fixed)), &e), "static symbol has another wire form");
    assert!(same(&enc(&Variant::StaticSymbol(StaticSymbol(fixed))), &e), "static symbol has another wire form");
    let x = Variant::Symbol(v);
    assert!(same(&enc(&x), &e), "variant has another wire form");
    assert!(whole(Variant::decode(&e)) == x, "variant changed");
}

/// RFC 3629, written down from its grammar.
fn valid(b: &[u8]) -> bool {
    let mut i = 0;
    let at = |i: usize, lo: u8, hi: u8| i < b.len() && b[i] >= lo && b[i] <= hi;
    while i < b.len() {
        let n = if at(i, 0, 0x7f) {
            1
        } else if at(i, 0xc2, 0xdf) && at(i + 1, 0x80, 0xbf) {
            2
        } else if (at(i, 0xe0, 0xe0) && at(i + 1, 0xa0, 0xbf)
            || at(i, 0xe1, 0xec) && at(i + 1, 0x80, 0xbf)
            || at(i, 0xed, 0xed) && at(i + 1, 0x80, 0x9f)
            || at(i, 0xee, 0xef) && at(i + 1, 0x80, 0xbf))
            && at(i + 2, 0x80, 0xbf)
        {
            3
        } else if (at(i, 0xf0, 0xf0) && at(i + 1, 0x90, 0xbf)
            || at(i, 0xf1, 0xf3) && at(i + 1, 0x80, 0xbf)
            || at(i, 0xf4, 0xf4) && at(i + 1, 0x80, 0x8f))
            && at(i + 2, 0x80, 0xbf)
            && at(i + 3, 0x80, 0xbf)
        {
            4
        } else {
            return false;
        };
        i += n
    }
    true
}
fn put(w: &mut Vec<u8>, code8: u8, wide: bool, b: &[u8]) {
    if wide {
        w.push(code8 + 0x10);
        w.extend_from_slice(&[0, 0, (b.len() >> 8) as u8])
    } else {
        w.push(code8)
    }
    w.push(b.len() as u8);
    w.extend_from_slice(b)
}
fn judge<T: Decode>(w: &[u8], good: bool, tail: u8, octets: fn(&T) -> &[u8], b: &[u8]) {
    match T::decode(w) {
        Ok((rest, v)) => {
            assert!(good, "text that is not UTF-8 was accepted");
            assert!(same(octets(&v), b), "decoded text differs");
            assert!(rest.len() == 1 && rest[0] == tail, "octets after the text");
        }
        Err(AmqpParseError::Utf8Error(_)) => assert!(!good, "valid text was rejected"),
        Err(_) => panic!("another error than invalid UTF-8"),
    }
}
/// Arbitrary octets in a string or symbol.
fn octets_as_text(n: usize, ty: usize) {
    let b = sym::octets(n);
    let good = valid(&b);
    let wide = sym::pick(2) == 1;
    let mut w = Vec::new();
    put(&mut w, if ty < 3 { 0xa1 } else { 0xa3 }, wide, &b);
    let tail = sym::u8();
    w.push(tail);
    match ty {
        0 => judge::<ByteStr>(&w, good, tail, |s| s.as_bytes(), &b),
        1 => judge::<Str>(&w, good, tail, |s| s.as_bytes(), &b),
        2 | 4 => judge::<Variant>(
            &w,
            good,
            tail,
            |v| match v {
                Variant::String(s) => s.as_bytes(),
                Variant::Symbol(s) => s.as_bytes(),
                _ => panic!("decoded as another type"),
            },
            &b,
        ),
        _ => judge::<Symbol>(&w, good, tail, |s| s.as_bytes(), &b),
    }
}

harnesses! {
    // @bound binary of 0, 1, 2, 5, 254..=257, 300 octets, first four and last octet free; Bytes, Option, Variant
    c02_binary {
        binary(blob())
    }
    // @bound strings of 1..=3 arbitrary Unicode scalar values; ByteStr, Str (owned and static), str, Option, Variant
    c02_string {
        string(utf8(3))
    }
    // @bound ASCII strings of 0, 1, 2, 5, 254..=257, 300 octets
    c02_string_lengths {
        string(ascii())
    }
    // @bound strings of one arbitrary scalar value and 62..=255 characters of two, three or four octets: counts around 255 octets and around 255 characters
    c02_string_wide {
        string(wide())
    }
    // @bound symbols of the same contents
    c02_symbol_wide {
        symbol(wide())
    }
    // @bound ASCII symbols of the same lengths; Symbol, StaticSymbol, Variant
    c02_symbol {
        symbol(ascii())
    }
    // @bound symbols of 1..=2 arbitrary Unicode scalar values (the codec does not restrict symbols to ASCII)
    c02_symbol_text {
        symbol(utf8(2))
    }
    // @bound every length that needs a second or third size octet at 65535, 65536, 65537 (binary, string, symbol)
    // @opts {"weight":2}
    c02_large {
        let n = 65535 + sym::pick(3);
        match sym::pick(3) {
            0 => {
                let v = Bytes::from(filled(n));
                let e = enc(&v);
                header(&e, 0xa0, n);
                assert!(whole(Bytes::decode(&e)) == v, "large binary changed");
            }
            1 => {
                let v = text(letters(n));
                let e = enc(&v);
                header(&e, 0xa1, n);
                assert!(whole(ByteStr::decode(&e)) == v, "large string changed");
            }
            _ => {
                let v = Symbol::from(text(letters(n)));
                let e = enc(&v);
                header(&e, 0xa3, n);
                assert!(whole(Symbol::decode(&e)) == v, "large symbol changed");
            }
        }
    }
    // @bound 0..=4 arbitrary octets as the content of a string or symbol in both widths, followed by one more octet; five decoders
    // @opts {"shards":25}
    c02_utf8 {
        let k = sym::pick(25);
        octets_as_text(k / 5, k % 5)
    }
    // @bound 5..=7 arbitrary octets as text
    // @opts {"shards":15,"timeout":14000}
    c02_utf8_t {
        let k = sym::pick(15);
        octets_as_text(5 + k / 5, k % 5)
    }
    // @bound binary content of 0..=6 arbitrary octets in both widths, followed by one more octet
    c02_binary_forms {
        let b = sym::octets(sym::pick(7));
        let mut w = Vec::new();
        put(&mut w, 0xa0, sym::pick(2) == 1, &b);
        let tail = sym::u8();
        w.push(tail);
        let (rest, v) = ok(Bytes::decode(&w));
        assert!(same(&v, &b), "decoded binary differs");
        assert!(rest.len() == 1 && rest[0] == tail, "octets after the binary");
        let (rest, v) = ok(Variant::decode(&w));
        assert!(v == Variant::Binary(Bytes::from(b)), "decoded variant differs");
        assert!(rest.len() == 1 && rest[0] == tail, "octets after the binary");
    }
    // @bound the empty string, binary and symbol in both widths are values, not null
    c02_empty {
        let wide = sym::pick(2) == 1;
        let mut w = Vec::new();
        put(&mut w, 0xa1, wide, b"");
        assert!(whole(Option::<ByteStr>::decode(&w)).map_or(false, |v| v.is_empty()), "empty string");
        let mut w = Vec::new();
        put(&mut w, 0xa0, wide, b"");
        assert!(whole(Option::<Bytes>::decode(&w)).map_or(false, |v| v.is_empty()), "empty binary");
        let mut w = Vec::new();
        put(&mut w, 0xa3, wide, b"");
        assert!(whole(Option::<Symbol>::decode(&w)).map_or(false, |v| v.len() == 0), "empty symbol");
    }
}
