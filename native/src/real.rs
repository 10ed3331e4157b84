//! Thin wrappers around the real crate.
use dlhn::{Body, DeserializeHeader, Deserializer, Header, Serializer};
use serde::{de::DeserializeOwned, Serialize};

pub fn ser<T: Serialize + ?Sized>(v: &T) -> Result<Vec<u8>, dlhn::ser::Error> {
    let mut out = Vec::new();
    v.serialize(&mut Serializer::new(&mut out))?;
    Ok(out)
}

/// The value and how many bytes it took.
pub fn de<T: DeserializeOwned>(b: &[u8]) -> Result<(T, usize), dlhn::de::Error> {
    let mut r = b;
    let v = T::deserialize(&mut Deserializer::new(&mut r))?;
    Ok((v, b.len() - r.len()))
}

pub fn body(h: &Header, b: &[u8]) -> Result<(Body, usize), dlhn::de::Error> {
    let mut r = b;
    let v = Body::deserialize(h, &mut Deserializer::new(&mut r))?;
    Ok((v, b.len() - r.len()))
}

pub fn header_bytes(h: &Header) -> std::io::Result<Vec<u8>> {
    let mut out = Vec::new();
    h.serialize(&mut out)?;
    Ok(out)
}

pub fn header(b: &[u8]) -> std::io::Result<(Header, usize)> {
    let mut r = b;
    let v = r.deserialize_header()?;
    Ok((v, b.len() - r.len()))
}
