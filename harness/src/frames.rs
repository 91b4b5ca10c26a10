//! Frames as the specification (part 2, section 2.3) lays them out, and a
//! frame body that keeps its octets.
use crate::fields::*;
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::{AmqpCodec, AmqpCodecError, AmqpFrame, AmqpParseError, Decode, Encode};
use bytes::{BufMut, BytesMut};
use tokio_codec::Decoder;

/// Keeps the octets of a frame after its size.  A frame that starts with 0xff
/// is malformed, of one that starts with 0xfe one octet is left over.
#[derive(Debug, Clone, PartialEq)]
pub struct Raw(pub Vec<u8>);
impl Decode for Raw {
    fn decode(input: &[u8]) -> Result<(&[u8], Raw), AmqpParseError> {
        match input[0] {
            0xff => Err(AmqpParseError::InvalidFormatCode(0xff)),
            0xfe => Ok((&input[..1], Raw(input.to_vec()))),
            _ => Ok((&[], Raw(input.to_vec()))),
        }
    }
}
impl Encode for Raw {
    fn encoded_size(&self) -> usize {
        self.0.len() + 4
    }
    fn encode(&self, buf: &mut BytesMut) {
        buf.put_u32_be(self.0.len() as u32 + 4);
        buf.put_slice(&self.0)
    }
}
/// What the reference expects of a stream of such frames.
#[derive(Debug, Clone, PartialEq)]
pub enum Item {
    Frame(Vec<u8>),
    Rejected,
    /// a size that no frame can have: nothing follows
    BadSize,
}
/// The frames complete in `w`, octets they take.
pub fn frames(w: &[u8]) -> (Vec<Item>, usize) {
    let mut r = Vec::new();
    let mut p = 0;
    while w.len() - p >= 8 {
        let size = (w[p] as usize) << 24 | (w[p + 1] as usize) << 16 | (w[p + 2] as usize) << 8 | w[p + 3] as usize;
        if size < 8 {
            r.push(Item::BadSize);
            break;
        }
        if w.len() - p < size {
            break;
        }
        r.push(if w[p + 4] >= 0xfe { Item::Rejected } else { Item::Frame(w[p + 4..p + size].to_vec()) });
        p += size
    }
    (r, p)
}
/// Everything the decoder yields for what is in the buffer; true: it cannot
/// go on.
pub fn pump(c: &mut AmqpCodec<Raw>, buf: &mut BytesMut, got: &mut Vec<Item>) -> bool {
    loop {
        let before = buf.len();
        match c.decode(buf) {
            Ok(Some(f)) => got.push(Item::Frame(f.0)),
            Ok(None) => return false,
            Err(_) if buf.len() == before => {
                got.push(Item::BadSize);
                return true;
            }
            Err(_) => got.push(Item::Rejected),
        }
        assert!(buf.len() < before, "a frame out of nothing");
    }
}
/// The same for AMQP frames.
pub fn pump_amqp(c: &mut AmqpCodec<AmqpFrame>, buf: &mut BytesMut, got: &mut Vec<Result<AmqpFrame, AmqpCodecError>>) {
    loop {
        let before = buf.len();
        match c.decode(buf) {
            Ok(Some(f)) => got.push(Ok(f)),
            Ok(None) => return,
            Err(e) => got.push(Err(e)),
        }
        assert!(buf.len() < before, "a frame out of nothing");
    }
}
/// A frame with this size whose other octets are free.
pub fn free_frame(size: usize, w: &mut Vec<u8>) {
    w.extend_from_slice(&[(size >> 24) as u8, (size >> 16) as u8, (size >> 8) as u8, size as u8]);
    for i in 4..size {
        w.push(if i < 8 || i + 2 >= size { sym::u8() } else { i as u8 })
    }
}
/// A frame around a composite.
pub fn frame<T: Composite>(kind: u8, v: &T) -> Vec<u8> {
    let mut w = vec![0, 0, 0, 0, 2, kind, sym::u8(), sym::u8()];
    v.write(&mut w, false);
    let n = w.len();
    w[2] = (n >> 8) as u8;
    w[3] = n as u8;
    w
}
