//@rewrite impl<'de> Deserialize<'de> for => impl Deserialize for
//@rewrite impl<'de, T> Deserialize<'de> for => impl<T> Deserialize for
//@rewrite Deserialize<'de> => Deserialize
//@rewrite <D>(deserializer: D) -> Result<Self, D::Error> where D: Deserializer<'de>, => <'de, R: Read>(deserializer: &mut Deserializer<'de, R>) -> Result<Self, Error>
//@rewrite <E>(self, v: $t) -> Result<Self::Value, E> where E: Error, => (self, v: $t) -> Result<Self::Value, Error>
//@rewrite <E>(self) -> Result<Self::Value, E> where E: Error, => (self) -> Result<Self::Value, Error>
//@rewrite <D>(self, deserializer: D) -> Result<Self::Value, D::Error> where D: Deserializer<'de>, => <R: Read>(self, deserializer: &mut Deserializer<'de, R>) -> Result<Self::Value, Error>
//@rewrite <A>(self, mut seq: A) -> Result<Self::Value, A::Error> where A: SeqAccess<'de>, => <'a, R: Read>(self, seq: SeqDeserializer<'a, 'de, R>) -> Result<Self::Value, Error>
//@rewrite <A>(self, mut map: A) -> Result<Self::Value, A::Error> where A: MapAccess<'de>, => <'a, R: Read>(self, map: MapDeserializer<'a, 'de, R>) -> Result<Self::Value, Error>
//@rewrite Error::invalid_length($n, &self) => Error::Read
//@rewrite tri!($e) => $e?
//@rewrite T::deserialize(deserializer).map(Some) => match T::deserialize(deserializer) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }
//@rewrite Deserialize::deserialize(deserializer).map(Box::new) => match Deserialize::deserialize(deserializer) { Ok(x) => Ok(Box::new(x)), Err(e) => Err(e) }
//@rewrite impl<'de, T: Deserialize,> Deserialize for => impl<T: Deserialize> Deserialize for
