//! The known findings: each case fails while the finding is there.
use crate::refmodel::{B, H};
use crate::typed::{check_body, check_header};
use dlhn::{Deserializer, SerializeHeader};
use serde::{Deserialize, Serialize};

#[derive(Serialize, SerializeHeader)]
struct SkippedNewtype(#[serde(skip)] u8);

#[derive(Serialize, SerializeHeader)]
#[allow(dead_code)]
enum SkippedVariant {
    X(u8),
    #[serde(skip)]
    Y,
    Z(String),
}

/// The header leaves out a variant that the index of serde counts.
pub fn skipped_variant(_: u64) -> crate::Outcome {
    let h = H::Enum(vec![H::U8, H::Str]);
    let real = check_header::<SkippedVariant>(&h)?;
    let bytes = crate::real::ser(&SkippedVariant::Z("a".into())).map_err(|e| e.to_string())?;
    check_body(&h, &real, &bytes, None, false)
}

/// serde writes the only field of a tuple struct even where it is marked skip.
pub fn skipped_newtype(_: u64) -> crate::Outcome {
    let bytes = crate::real::ser(&SkippedNewtype(7)).map_err(|e| e.to_string())?;
    let mut hb = vec![];
    SkippedNewtype::serialize_header(&mut hb).map_err(|e| e.to_string())?;
    let (real, _) = crate::real::header(&hb).map_err(|e| e.to_string())?;
    let (h, b) = if hb == [21, 0] { (H::Tup(vec![]), None) } else { (H::Tup(vec![H::U8]), Some(B::Tup(vec![B::U8(7)]))) };
    check_body(&h, &real, &bytes, b.as_ref(), false)
}

fn twice<T: Serialize + for<'a> Deserialize<'a> + PartialEq + std::fmt::Debug>(v: T) -> crate::Outcome {
    let mut bytes = crate::real::ser(&v).map_err(|e| e.to_string())?;
    bytes.extend_from_within(..);
    let mut r = bytes.as_slice();
    for _ in 0..2 {
        let back = T::deserialize(&mut Deserializer::new(&mut r)).map_err(|e| format!("{:?} does not decode: {}", v, e))?;
        if back != v {
            return Err(format!("{:?} decodes to {:?}", v, back));
        }
    }
    Ok(0)
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Aliased {
    #[serde(alias = "z")]
    x: u8,
    y: u8,
}

/// The names of a struct that the decoder gets hold the aliases too, and it takes each for a field.
pub fn aliased_field(_: u64) -> crate::Outcome {
    twice(Aliased { x: 1, y: 2 })
}

#[derive(Deserialize, PartialEq, Debug)]
struct Uncounted(Vec<u8>);

impl Serialize for Uncounted {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(self.0.iter().filter(|_| true))
    }
}

/// A sequence whose length is not known beforehand is written without a count.
pub fn uncounted_sequence(_: u64) -> crate::Outcome {
    twice(Uncounted(vec![3, 4]))
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Inner {
    a: u8,
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Flattened {
    #[serde(flatten)]
    inner: Inner,
    b: u8,
}

/// serde writes such a struct as a map of unknown length, which gets no count.
pub fn flattened_struct(_: u64) -> crate::Outcome {
    twice(Flattened { inner: Inner { a: 1 }, b: 2 })
}
