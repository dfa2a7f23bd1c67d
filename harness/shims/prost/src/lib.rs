//! Stand-in for prost: the protobuf wire format for the shapes the network messages use.
pub use bytes;
pub use prost_derive::{Message, Oneof};
use bytes::{Buf, BufMut};
use std::fmt;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DecodeError(&'static str);
impl fmt::Display for DecodeError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "failed to decode Protobuf message: {}", self.0) } }
impl std::error::Error for DecodeError {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct EncodeError;
impl fmt::Display for EncodeError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("failed to encode Protobuf message: insufficient buffer capacity") } }
impl std::error::Error for EncodeError {}
pub enum Val<'a> { Int(u64), Len(&'a [u8]), Other }
pub fn put_varint(mut v: u64, o: &mut Vec<u8>) { while v >= 0x80 { o.push(v as u8 | 0x80); v >>= 7; } o.push(v as u8) }
fn get_varint(b: &mut &[u8]) -> Result<u64, DecodeError> {
    let mut v = 0u64;
    for i in 0..10 {
        let (x, r) = b.split_first().ok_or(DecodeError("invalid varint"))?;
        *b = r;
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 { return Ok(v); }
    }
    Err(DecodeError("invalid varint"))
}
pub fn each(mut b: &[u8], mut f: impl FnMut(u32, Val<'_>) -> Result<(), DecodeError>) -> Result<(), DecodeError> {
    while !b.is_empty() {
        let k = get_varint(&mut b)?;
        if k > u32::MAX as u64 || k >> 3 == 0 { return Err(DecodeError("invalid key")); }
        let skip = |b: &mut &[u8], n: usize| if b.len() < n { Err(DecodeError("buffer underflow")) } else { *b = &b[n..]; Ok(()) };
        match k & 7 {
            0 => { let v = get_varint(&mut b)?; f((k >> 3) as u32, Val::Int(v))? }
            1 => { skip(&mut b, 8)?; f((k >> 3) as u32, Val::Other)? }
            5 => { skip(&mut b, 4)?; f((k >> 3) as u32, Val::Other)? }
            2 => {
                let n = get_varint(&mut b)? as usize;
                if n > b.len() { return Err(DecodeError("buffer underflow")); }
                let (x, r) = b.split_at(n);
                b = r;
                f((k >> 3) as u32, Val::Len(x))?
            }
            _ => return Err(DecodeError("invalid wire type")),
        }
    }
    Ok(())
}
pub fn put_int(tag: u32, v: u64, o: &mut Vec<u8>) { put_varint((tag as u64) << 3, o); put_varint(v, o) }
pub fn put_len(tag: u32, v: &[u8], o: &mut Vec<u8>) { put_varint((tag as u64) << 3 | 2, o); put_varint(v.len() as u64, o); o.extend_from_slice(v) }
pub fn int(v: &Val<'_>) -> Result<u64, DecodeError> { if let Val::Int(x) = v { Ok(*x) } else { Err(DecodeError("invalid wire type")) } }
pub fn len<'a>(v: &Val<'a>) -> Result<&'a [u8], DecodeError> { if let Val::Len(x) = v { Ok(x) } else { Err(DecodeError("invalid wire type")) } }
pub fn text(v: &Val<'_>) -> Result<String, DecodeError> { String::from_utf8(len(v)?.to_vec()).map_err(|_| DecodeError("invalid string value")) }
pub fn map_entry(v: &Val<'_>) -> Result<(String, Vec<u8>), DecodeError> {
    let (mut k, mut x) = (String::new(), vec![]);
    each(len(v)?, |t, v| { match t { 1 => k = text(&v)?, 2 => x = len(&v)?.to_vec(), _ => () } Ok(()) })?;
    Ok((k, x))
}
pub fn put_entry(tag: u32, k: &str, v: &[u8], o: &mut Vec<u8>) {
    let mut e = vec![];
    if !k.is_empty() { put_len(1, k.as_bytes(), &mut e) }
    if !v.is_empty() { put_len(2, v, &mut e) }
    put_len(tag, &e, o)
}
pub trait Message: Default + Sized {
    fn put(&self, o: &mut Vec<u8>);
    fn merge_field(&mut self, tag: u32, v: Val<'_>) -> Result<(), DecodeError>;
    fn merge_bytes(&mut self, b: &[u8]) -> Result<(), DecodeError> { each(b, |t, v| self.merge_field(t, v)) }
    fn encoded_len(&self) -> usize { let mut o = vec![]; self.put(&mut o); o.len() }
    fn encode<B: BufMut>(&self, b: &mut B) -> Result<(), EncodeError> {
        let mut o = vec![];
        self.put(&mut o);
        if o.len() > b.remaining_mut() { return Err(EncodeError); }
        b.put_slice(&o);
        Ok(())
    }
    fn encode_to_vec(&self) -> Vec<u8> { let mut o = vec![]; self.put(&mut o); o }
    fn decode<B: Buf>(mut b: B) -> Result<Self, DecodeError> {
        let x = b.copy_to_bytes(b.remaining());
        let mut m = Self::default();
        m.merge_bytes(&x)?;
        Ok(m)
    }
}
