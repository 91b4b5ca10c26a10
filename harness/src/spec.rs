//! Reference reader for AMQP 1.0 encodings (part 1 of the specification),
//! written independently of the crate under test.
use amqp_codec::{AmqpParseError, Encode};
use bytes::{BufMut, BytesMut};

/// Encode with exactly the announced capacity and compare the announced size
/// with the bytes written.
pub fn enc<T: Encode + ?Sized>(v: &T) -> BytesMut {
    let n = v.encoded_size();
    let mut b = BytesMut::with_capacity(n);
    v.encode(&mut b);
    assert!(b.len() == n, "encoded_size differs from the bytes written");
    b
}

pub fn ok<T>(r: Result<T, AmqpParseError>) -> T {
    match r {
        Ok(v) => v,
        Err(_) => panic!("decoding failed"),
    }
}

/// Decode a complete encoding.
pub fn whole<T>(r: Result<(&[u8], T), AmqpParseError>) -> T {
    let (rest, v) = ok(r);
    assert!(rest.is_empty(), "bytes left after a complete value");
    v
}

pub fn buffer(n: usize) -> BytesMut {
    BytesMut::with_capacity(n)
}

pub fn put(b: &mut BytesMut, s: &[u8]) {
    b.put_slice(s)
}

pub struct R<'a> {
    pub b: &'a [u8],
    pub p: usize,
}

impl<'a> R<'a> {
    pub fn new(b: &'a [u8]) -> R<'a> {
        R { b, p: 0 }
    }
    pub fn u8(&mut self) -> u8 {
        assert!(self.p < self.b.len(), "encoding shorter than its format requires");
        let v = self.b[self.p];
        self.p += 1;
        v
    }
    pub fn be16(&mut self) -> u16 {
        let h = self.u8() as u16;
        h << 8 | self.u8() as u16
    }
    pub fn be32(&mut self) -> u32 {
        let h = self.be16() as u32;
        h << 16 | self.be16() as u32
    }
    pub fn be64(&mut self) -> u64 {
        let h = self.be32() as u64;
        h << 32 | self.be32() as u64
    }
    pub fn end(&self) {
        assert!(self.p == self.b.len(), "bytes beyond the encoded value");
    }
    pub fn null(&mut self) -> bool {
        if self.p < self.b.len() && self.b[self.p] == 0x40 {
            self.p += 1;
            return true;
        }
        false
    }
    pub fn boolean(&mut self) -> bool {
        match self.u8() {
            0x41 => true,
            0x42 => false,
            0x56 => match self.u8() {
                0 => false,
                1 => true,
                _ => panic!("not a boolean octet"),
            },
            _ => panic!("not a boolean encoding"),
        }
    }
    pub fn ubyte(&mut self) -> u8 {
        assert!(self.u8() == 0x50, "not an ubyte encoding");
        self.u8()
    }
    pub fn ushort(&mut self) -> u16 {
        assert!(self.u8() == 0x60, "not an ushort encoding");
        self.be16()
    }
    pub fn uint(&mut self) -> u32 {
        match self.u8() {
            0x43 => 0,
            0x52 => self.u8() as u32,
            0x70 => self.be32(),
            _ => panic!("not an uint encoding"),
        }
    }
    pub fn ulong(&mut self) -> u64 {
        match self.u8() {
            0x44 => 0,
            0x53 => self.u8() as u64,
            0x80 => self.be64(),
            _ => panic!("not an ulong encoding"),
        }
    }
    pub fn byte(&mut self) -> i8 {
        assert!(self.u8() == 0x51, "not a byte encoding");
        self.u8() as i8
    }
    pub fn short(&mut self) -> i16 {
        assert!(self.u8() == 0x61, "not a short encoding");
        self.be16() as i16
    }
    pub fn int(&mut self) -> i32 {
        match self.u8() {
            0x54 => self.u8() as i8 as i32,
            0x71 => self.be32() as i32,
            _ => panic!("not an int encoding"),
        }
    }
    pub fn long(&mut self) -> i64 {
        match self.u8() {
            0x55 => self.u8() as i8 as i64,
            0x81 => self.be64() as i64,
            _ => panic!("not a long encoding"),
        }
    }
    pub fn float(&mut self) -> u32 {
        assert!(self.u8() == 0x72, "not a float encoding");
        self.be32()
    }
    pub fn double(&mut self) -> u64 {
        assert!(self.u8() == 0x82, "not a double encoding");
        self.be64()
    }
    pub fn char(&mut self) -> u32 {
        assert!(self.u8() == 0x73, "not a char encoding");
        self.be32()
    }
    pub fn timestamp(&mut self) -> i64 {
        assert!(self.u8() == 0x83, "not a timestamp encoding");
        self.be64() as i64
    }
    pub fn uuid(&mut self) -> [u8; 16] {
        assert!(self.u8() == 0x98, "not an uuid encoding");
        let mut r = [0; 16];
        let mut i = 0;
        while i < 16 {
            r[i] = self.u8();
            i += 1;
        }
        r
    }
    fn variable(&mut self, code8: u8, code32: u8) -> &'a [u8] {
        let c = self.u8();
        let n = if c == code8 {
            self.u8() as usize
        } else {
            assert!(c == code32, "not an encoding of the expected type");
            self.be32() as usize
        };
        assert!(n <= self.b.len() - self.p, "encoding shorter than its format requires");
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        r
    }
    pub fn binary(&mut self) -> &'a [u8] {
        self.variable(0xa0, 0xb0)
    }
    pub fn string(&mut self) -> &'a [u8] {
        self.variable(0xa1, 0xb1)
    }
    pub fn symbol(&mut self) -> &'a [u8] {
        self.variable(0xa3, 0xb3)
    }
    /// Compound header: (position after the value, element count).
    fn compound(&mut self, code8: u8, code32: u8) -> (usize, usize) {
        let c = self.u8();
        let (size, count);
        let start;
        if c == code8 {
            size = self.u8() as usize;
            start = self.p;
            count = self.u8() as usize;
        } else {
            assert!(c == code32, "not an encoding of the expected compound type");
            size = self.be32() as usize;
            start = self.p;
            count = self.be32() as usize;
        }
        assert!(size <= self.b.len() - start, "compound size beyond the encoding");
        (start + size, count)
    }
    pub fn list(&mut self) -> (usize, usize) {
        if self.p < self.b.len() && self.b[self.p] == 0x45 {
            self.p += 1;
            return (self.p, 0);
        }
        self.compound(0xc0, 0xd0)
    }
    pub fn map(&mut self) -> (usize, usize) {
        self.compound(0xc1, 0xd1)
    }
    /// (position after the array, element count, element constructor)
    pub fn array(&mut self) -> (usize, usize, u8) {
        let (e, n) = self.compound(0xe0, 0xf0);
        let c = self.u8();
        (e, n, c)
    }
    /// Descriptor of a described value, numeric form.
    pub fn descriptor(&mut self) -> u64 {
        assert!(self.u8() == 0, "not a described value");
        self.ulong()
    }
    pub fn at(&self, end: usize) {
        assert!(self.p == end, "declared size does not match the content");
    }
}

pub fn same(a: &[u8], b: &[u8]) -> bool {
    a == b
}
