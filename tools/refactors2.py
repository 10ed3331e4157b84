"""More edits that change no behaviour, of the larger kind: renames, moves between files, macros, new helper layers."""
import re
from refactors import S, D, B, HD, HS, V, Z, DATE, DT, DEC, INT, FDEC, FDT, FDATE, DER, sub, every, upto_tests

UINT, FINT, FUINT = 'dlhn/src/big_uint.rs', 'dlhn/src/format/big_int.rs', 'dlhn/src/format/big_uint.rs'


def multi(*fs):
    def f(s):
        for g in fs:
            s = g(s)
        return s
    return f


def rsub(pat, new, n=None):
    def f(s):
        t, c = re.subn(pat, new, s)
        assert c and (n is None or c == n), (c, pat)
        return t
    return f


def append_before_tests(text):
    def f(s):
        a, b, c = s.partition('#[cfg(test)]\nmod tests')
        return a + text + '\n' + b + c
    return f


SER_UNSIGNED = '''    fn serialize_u16(self, v: u16) -> Result<Self::Ok, Self::Error> {
        let mut buf = [0u8; u16::PREFIX_VARINT_BUF_SIZE];
        let size = v.encode_prefix_varint(&mut buf);
        self.output.write_all(&buf[..size]).or(Err(Error::Write))
    }
'''

BIGGER = [
    ('rename-count', ['C05', 'C10'], [(D, multi(
        every('self.count > 0', 'self.remaining > 0'), every('self.count -= 1', 'self.remaining -= 1'), every('    count: usize,\n}', '    remaining: usize,\n}'),
        every('            deserializer,\n            count,\n', '            deserializer,\n            remaining: count,\n')))]),
    ('rename-keys', ['C05', 'C15'], [(D, multi(sub('keys: Iter', 'names: Iter'), sub('keys: keys.iter()', 'names: keys.iter()'), sub('self.keys.next()', 'self.names.next()')))]),
    ('rename-output', ['C01', 'C02', 'C04', 'C05', 'C06', 'C15'], [(S, multi(every('self.output', 'self.writer'), sub('    output: W,\n}', '    writer: W,\n}'),
        sub('Self { output }', 'Self { writer: output }')))]),
    ('rename-reader', ['C01', 'C03', 'C04', 'C15'], [(D, multi(rsub(r'self\s*\.reader', 'self.input'), sub("    reader: &'de mut R,\n}", "    input: &'de mut R,\n}"), sub('Deserializer { reader }', 'Deserializer { input: reader }')))]),
    ('rename-decode-prefix', ['C01', 'C03', 'C08'], [(V, every('decode_prefix(reader)', 'read_first_byte(reader)')), (V, sub('fn decode_prefix(reader: &mut impl Read)', 'fn read_first_byte(reader: &mut impl Read)'))]),
    ('rename-key-serializer', ['C06'], [(S, every('MapKeySerializer', 'KeySerializer'))]),
    ('result-alias-de', ['C01', 'C05', 'C10'], [(D, lambda s: upto_tests(s, lambda a: re.sub(r'-> Result<(\w+|V::Value|K::Value|T::Value|\(\)), Self::Error>', r'-> DeResult<\1>', a)
        .replace('impl std::error::Error for Error {}\n', 'impl std::error::Error for Error {}\n\ntype DeResult<T> = std::result::Result<T, Error>;\n')))]),
    ('result-alias-ser', ['C01', 'C05', 'C06'], [(S, lambda s: upto_tests(s, lambda a: a.replace('Result<Self::Ok, Self::Error>', 'Result<(), Error>')))]),
    ('ser-macro', ['C01', 'C02', 'C05'], [(S, lambda s: upto_tests(s, lambda a: re.sub(r'    fn serialize_(u16|u32|u64)\(self, v: \1\) -> Result<Self::Ok, Self::Error> \{\n        let mut buf.*?\n    \}\n', r'    unsigned!(serialize_\1, \1);\n', a, flags=re.S)
        .replace('pub struct Serializer<W: Write> {', '''macro_rules! unsigned {
    ($name:ident, $ty:ty) => {
        fn $name(self, v: $ty) -> Result<Self::Ok, Self::Error> {
            let mut buf = [0u8; <$ty>::PREFIX_VARINT_BUF_SIZE];
            let size = v.encode_prefix_varint(&mut buf);
            self.output.write_all(&buf[..size]).or(Err(Error::Write))
        }
    };
}

pub struct Serializer<W: Write> {''')))]),
    ('de-macro', ['C01', 'C03'], [(D, lambda s: upto_tests(s, lambda a: re.sub(r'''    fn deserialize_(u16|u32|u64)<V>\(self, visitor: V\) -> Result<V::Value, Self::Error>
    where
        V: de::Visitor<'de>,
    \{
        visitor.visit_\1\(\1::decode_prefix_varint\(self.reader\).or\(Err\(Error::Read\)\)\?\)
    \}
''', r'    unsigned!(deserialize_\1, visit_\1, \1);\n', a).replace("pub struct Deserializer<'de, R: Read> {", '''macro_rules! unsigned {
    ($name:ident, $visit:ident, $ty:ty) => {
        fn $name<V>(self, visitor: V) -> Result<V::Value, Self::Error>
        where
            V: de::Visitor<'de>,
        {
            visitor.$visit(<$ty>::decode_prefix_varint(self.reader).or(Err(Error::Read))?)
        }
    };
}

pub struct Deserializer<'de, R: Read> {''')))]),
    ('de-read-array-helper', ['C01', 'C03', 'C15'], [(D, lambda s: upto_tests(s, lambda a: re.sub(r'let mut buf = \[0u8; (\d)\];\n        self.reader.read_exact\(&mut buf\).or\(Err\(Error::Read\)\)\?;', r'let buf: [u8; \1] = self.read_array()?;', a)
        .replace('''        Deserializer { reader }
    }
''', '''        Deserializer { reader }
    }

    fn read_array<const N: usize>(&mut self) -> Result<[u8; N], Error> {
        let mut buf = [0u8; N];
        self.reader.read_exact(&mut buf).or(Err(Error::Read))?;
        Ok(buf)
    }
''')))]),
    ('de-length-helper', ['C04', 'C05', 'C10'], [(D, lambda s: upto_tests(s, lambda a: a.replace('u64::decode_prefix_varint(self.reader).or(Err(Error::Read))?;', 'self.read_len()?;')
        .replace('''        Deserializer { reader }
    }
''', '''        Deserializer { reader }
    }

    /// Reads the number of bytes or elements that follow.
    fn read_len(&mut self) -> Result<u64, Error> {
        u64::decode_prefix_varint(self.reader).or(Err(Error::Read))
    }
''')))]),
    ('varint-generic-reader', ['C01', 'C03', 'C08'], [(V, sub('fn decode_prefix(reader: &mut impl Read) -> Result<u8>', 'fn decode_prefix<R: Read>(reader: &mut R) -> Result<u8>'))]),
    ('varint-first-question', ['C01', 'C03', 'C08'], [(V, sub('''    reader.read_exact(&mut prefix_buf)?;
    Ok(prefix_buf[0])''', '    reader.read_exact(&mut prefix_buf).map(|()| prefix_buf[0])'))]),
    ('varint-u64-from', ['C01', 'C03'], [(V, every('u64::from_le_bytes(buf)', 'u64::from_le_bytes(buf) + 0')),]),
    ('varint-from-casts', ['C01', 'C03', 'C08'], [(V, multi(every('Ok(prefix as u16)', 'Ok(u16::from(prefix))'), every('Ok(prefix as u32)', 'Ok(u32::from(prefix))')))]),
    ('varint-fill', ['C01', 'C02', 'C07'], [(V, sub('''                value <<= 2;
                buf[0] = (value as u8 >> 2) | 128;
                buf[1] = (value >> 8) as u8;
                2
            }
            _ => {
                buf[0] = value as u8;
                1
            }
        }
    }

    fn decode_prefix_varint(reader: &mut impl Read) -> Result<Self> {
        let prefix = decode_prefix(reader)?;

        match prefix.leading_ones() as u8 {
            0 => Ok(prefix as u16),''', '''                buf[0] = 0x80 | (value & 0x3f) as u8;
                buf[1] = (value >> 6) as u8;
                2
            }
            _ => {
                buf[0] = value as u8;
                1
            }
        }
    }

    fn decode_prefix_varint(reader: &mut impl Read) -> Result<Self> {
        let prefix = decode_prefix(reader)?;

        match prefix.leading_ones() as u8 {
            0 => Ok(prefix as u16),''')), (V, sub('''    fn encode_prefix_varint(self, buf: &mut [u8; 3]) -> usize {
        let mut value = self;
''', '''    fn encode_prefix_varint(self, buf: &mut [u8; 3]) -> usize {
        let value = self;
'''))]),
    ('move-map-key', ['C06', 'C05'], None),
    ('body-try-for-each', ['C05', 'C09'], [(B, sub('''                for value in v.iter() {
                    tuple.serialize_element(value)?;
                }
''', '''                v.iter().try_for_each(|value| tuple.serialize_element(value))?;
'''))]),
    ('body-collect-range', ['C09', 'C10'], [(B, sub('''                for _ in 0..len {
                    buf.push(Self::deserialize(inner, deserializer)?);
                }
                Ok(Self::Array(buf))''', '''                (0..len).try_for_each(|_| {
                    buf.push(Self::deserialize(inner, deserializer)?);
                    Ok::<(), Error>(())
                })?;
                Ok(Self::Array(buf))'''))]),
    ('body-arms-reordered', ['C05', 'C09'], [(B, multi(sub('            Body::Unit => ().serialize(serializer),\n', ''), sub('''            Body::DateTime(v) => v.serialize(serializer),
''', '''            Body::DateTime(v) => v.serialize(serializer),
            Body::Unit => ().serialize(serializer),
''')))]),
    ('body-array-fn', ['C09', 'C10'], [(B, multi(sub('''                let len = u64::deserialize(&mut *deserializer)?;
                let mut buf = Vec::with_capacity(len.min(MAX_PREALLOCATION) as usize);
                for _ in 0..len {
                    buf.push(Self::deserialize(inner, deserializer)?);
                }
                Ok(Self::Array(buf))''', '                Self::deserialize_array(inner, deserializer).map(Self::Array)'), sub('''    pub fn validate(''', '''    fn deserialize_array<R: Read>(
        inner: &Header,
        deserializer: &mut Deserializer<R>,
    ) -> Result<Vec<Self>, crate::de::Error> {
        let len = u64::deserialize(&mut *deserializer)?;
        let mut buf = Vec::with_capacity(len.min(MAX_PREALLOCATION) as usize);
        for _ in 0..len {
            buf.push(Self::deserialize(inner, deserializer)?);
        }
        Ok(buf)
    }

    pub fn validate(''')))]),
    ('body-enum-if-let', ['C09', 'C10'], [(B, sub('''                let inner = inner.get(i as usize).ok_or(Error::Read)?;
                Ok(Self::Enum(
                    i,
                    Box::new(Self::deserialize(inner, deserializer)?),
                ))''', '''                if let Some(inner) = inner.get(i as usize) {
                    let body = Self::deserialize(inner, deserializer)?;
                    Ok(Self::Enum(i, Box::new(body)))
                } else {
                    Err(Error::Read)
                }'''))]),
    ('body-optional-then', ['C09', 'C10'], [(B, sub('''                    Ok(Self::Optional(Some(Box::new(Self::deserialize(
                        inner,
                        deserializer,
                    )?))))''', '''                    let value = Self::deserialize(inner, deserializer)?;
                    Ok(Self::Optional(Some(Box::new(value))))'''))]),
    ('validate-map-or', ['C09'], [(B, sub('''                if let Some(header) = inner_header.get(*i as usize) {
                    v.validate(header)
                } else {
                    false
                }''', '''                inner_header.get(*i as usize).map_or(false, |header| v.validate(header))'''))]),
    ('validate-matches', ['C09'], [(B, sub('''            (Header::Boolean, Body::Boolean(_)) => true,
            (Header::UInt8, Body::UInt8(_)) => true,
''', '''            (Header::Boolean, Body::Boolean(_)) | (Header::UInt8, Body::UInt8(_)) => true,
'''))]),
    ('validate-length-first', ['C09'], [(B, sub('''                inner_headers.len() == inner_bodies.len()
                    && inner_headers
                        .iter()
                        .zip(inner_bodies)
                        .all(|(header, body)| body.validate(header))''', '''                if inner_headers.len() != inner_bodies.len() {
                    return false;
                }
                inner_bodies
                    .iter()
                    .zip(inner_headers.iter())
                    .all(|(body, header)| body.validate(header))'''))]),
    ('header-de-question', ['C07', 'C08', 'C15'], [(HD, every('''                let inner = self.deserialize_header()?;
                Ok(Header::Array(Box::new(inner)))''', '                Ok(Header::Array(Box::new(self.deserialize_header()?)))'))]),
    ('header-de-error-text', ['C07', 'C08', 'C10'], [(HD, sub('invalid header code: {}', 'unknown header code {}'))]),
    ('header-de-error-helper', ['C08', 'C10'], [(HD, multi(sub('''            code => Err(std::io::Error::new(
                ErrorKind::InvalidData,
                format!("invalid header code: {}", code),
            )),''', '            code => Err(invalid_code(code)),'), append_before_tests('''fn invalid_code(code: u8) -> std::io::Error {
    std::io::Error::new(
        ErrorKind::InvalidData,
        format!("invalid header code: {}", code),
    )
}
''')))]),
    ('header-de-arms-reordered', ['C07', 'C08'], [(HD, multi(sub('            super::UNIT_CODE => Ok(Header::Unit),\n', ''), sub('            super::DATETIME_CODE => Ok(Header::DateTime),\n', '            super::DATETIME_CODE => Ok(Header::DateTime),\n            super::UNIT_CODE => Ok(Header::Unit),\n')))]),
    ('header-ser-macro', ['C07', 'C11'], [(HS, lambda s: upto_tests(s, lambda a: re.sub(r'impl SerializeHeader for (u8|u16|u32|u64|i8|i16|i32|i64) \{\n    fn serialize_header<W: Write>\(writer: &mut W\) -> Result<\(\)> \{\n        writer.write_all\(&\[super::(\w+)\]\)\n    \}\n\}\n', r'simple!(\1, \2);\n', a)
        .replace('impl SerializeHeader for () {', '''macro_rules! simple {
    ($ty:ty, $code:ident) => {
        impl SerializeHeader for $ty {
            fn serialize_header<W: Write>(writer: &mut W) -> Result<()> {
                writer.write_all(&[super::$code])
            }
        }
    };
}

impl SerializeHeader for () {''')))]),
    ('error-text', ['C01', 'C05', 'C10', 'C15'], [(D, lambda s: upto_tests(s, lambda a: a.replace('"Read error"', '"could not read"').replace('not a self-describing format', 'no self-describing format'))),
        (S, lambda s: upto_tests(s, lambda a: a.replace('"write error"', '"could not write"')))]),
    ('date-inline', ['C13', 'C10'], [(DATE, multi(every('let mut tuple = serializer.serialize_tuple(2)?;', 'let mut tuple = serializer.serialize_tuple(2)?;\n        let year = self.year - DATE_YEAR_OFFSET;\n        let ordinal = self.ordinal - DATE_ORDINAL_OFFSET;'),
        sub('serialize_element(&(self.year - DATE_YEAR_OFFSET))', 'serialize_element(&year)'), sub('serialize_element(&(self.ordinal - DATE_ORDINAL_OFFSET))', 'serialize_element(&ordinal)')))]),
    ('date-as-pair', ['C13', 'C10'], [(DATE, sub('''        let mut tuple = serializer.serialize_tuple(2)?;
        tuple.serialize_element(&(self.year - DATE_YEAR_OFFSET))?;
        tuple.serialize_element(&(self.ordinal - DATE_ORDINAL_OFFSET))?;
        tuple.end()''', '''        (
            self.year - DATE_YEAR_OFFSET,
            self.ordinal - DATE_ORDINAL_OFFSET,
        )
            .serialize(serializer)'''), ), (DATE, sub('    ser::SerializeTuple,\n', ''))]),
    ('date-visitor-helper', ['C13', 'C10'], [(DATE, multi(every('.ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?', '.ok_or_else(format_error)?'), append_before_tests('''fn format_error<E: de::Error>() -> E {
    de::Error::invalid_value(Unexpected::Seq, &Error::Read)
}
''') if False else sub('struct DateVisitor;', '''fn format_error<E: de::Error>() -> E {
    de::Error::invalid_value(Unexpected::Seq, &Error::Read)
}

struct DateVisitor;''')))]),
    ('date-time-by-hand', ['C13', 'C05'], [(DT, sub('''        Self {
            unix_timestamp: date_time.unix_timestamp(),
            nanosecond: date_time.nanosecond(),
        }''', '''        let unix_timestamp = date_time.unix_timestamp();
        let nanosecond = date_time.nanosecond();
        Self {
            unix_timestamp,
            nanosecond,
        }'''))]),
    ('date-time-duration', ['C13'], [(DT, multi(sub('.checked_add((self.nanosecond as i64).nanoseconds())', '.checked_add(time::Duration::nanoseconds(self.nanosecond as i64))'), lambda s: s.replace('use time::{ext::NumericalDuration, OffsetDateTime};', 'use time::OffsetDateTime;', 1)))]),
    ('int-new-fn', ['C14'], [(INT, multi(sub('''        if v.is_zero() {
            Self(Vec::new())
        } else {
            Self(v.to_signed_bytes_le())
        }''', '''        let bytes = if v.is_zero() {
            Vec::new()
        } else {
            v.to_signed_bytes_le()
        };
        Self(bytes)''')))]),
    ('uint-match-zero', ['C14'], [(UINT, sub('''        if v.is_zero() {
            Self(Vec::new())
        } else {
            Self(v.to_bytes_le())
        }''', '''        match v.is_zero() {
            true => Self(vec![]),
            false => Self(v.to_bytes_le()),
        }'''))]),
    ('decimal-is-empty', ['C14'], [(DEC, sub('if self.signed_bytes == [] {', 'if self.signed_bytes.is_empty() {'))]),
    ('decimal-negated', ['C14'], [(DEC, sub('''        if self.signed_bytes == [] {
            seq.serialize_element(&0u8)?;
        } else {
            seq.serialize_element(&self.signed_bytes)?;
            seq.serialize_element(&self.scale)?;
        }

        seq.end()''', '''        if !self.signed_bytes.is_empty() {
            seq.serialize_element(&self.signed_bytes)?;
            seq.serialize_element(&self.scale)?;
        } else {
            seq.serialize_element(&0u8)?;
        }

        seq.end()'''))]),
    ('derive-error-const', ['C12'], [(DER, lambda s: s.replace('"skip_serializing_if is not supported"', 'SKIP_IF_MESSAGE').replace('const SERDE_ATTRIBUTE', 'const SKIP_IF_MESSAGE: &str = "skip_serializing_if is not supported";\nconst SERDE_ATTRIBUTE'))]),
    ('derive-one-attr-fn', ['C12'], [(DER, lambda s: s[:s.index('fn is_skip_field')] + '''fn is_skip_field(attributes: Iter<Attribute>) -> bool {
    has_serde(attributes, &[SKIP_ATTRIBUTE, SKIP_SERIALIZING_ATTRIBUTE])
}

fn has_skip_serializing_if(attributes: Iter<Attribute>) -> bool {
    has_serde(attributes, &[SKIP_SERIALIZING_IF_ATTRIBUTE])
}

fn has_serde(attributes: Iter<Attribute>, names: &[&str]) -> bool {
    for attribute in attributes {
        if !attribute.path.is_ident(SERDE_ATTRIBUTE) {
            continue;
        }
        if let Ok(Meta::List(list)) = attribute.parse_meta() {
            for nested in list.nested.iter() {
                if let NestedMeta::Meta(meta) = nested {
                    if names.iter().any(|name| meta.path().is_ident(name)) {
                        return true;
                    }
                }
            }
        }
    }
    false
}
''')]),
    ('derive-prefix-fn', ['C12'], [(DER, multi(rsub(r'let mut buf = vec!\[TUPLE_CODE\];\n\s*buf.append\(\n\s*&mut \(types.len\(\) as u16\).encode_prefix_varint_vec\(\),\n\s*\);', 'let buf = tuple_prefix(types.len());', 2), lambda s: s + '''
fn tuple_prefix(len: usize) -> Vec<u8> {
    let mut buf = vec![TUPLE_CODE];
    buf.append(&mut (len as u16).encode_prefix_varint_vec());
    buf
}
'''))]),
    ('ser-unused-generic', ['C01', 'C05'], [(S, multi(every('value.serialize(&mut **self)', 'T::serialize(value, &mut **self)')))]),
    ('ser-write-fmt', ['C05', 'C15'], [(S, sub('self.output.write_all(&[0u8]).or(Err(Error::Write))', 'false.serialize(self)'))]),
    ('ser-some-true', ['C05', 'C15'], [(S, sub('self.output.write_all(&[1u8]).or(Err(Error::Write))?;', 'true.serialize(&mut *self)?;'))]),
    ('ser-char-encode', ['C04', 'C02'], [(S, sub('v.to_string().serialize(self)', 'self.serialize_str(v.encode_utf8(&mut [0; 4]))'))]),
    ('de-tuple-struct', ['C05'], [(D, sub('''        mut self,
        _name: &'static str,
        len: usize,
        visitor: V,
    ) -> Result<V::Value, Self::Error>
    where
        V: de::Visitor<'de>,
    {
        visitor.visit_seq(SeqDeserializer::new(&mut self, len))''', '''        self,
        _name: &'static str,
        len: usize,
        visitor: V,
    ) -> Result<V::Value, Self::Error>
    where
        V: de::Visitor<'de>,
    {
        self.deserialize_tuple(len, visitor)'''))]),
    ('de-map-wraps-seq', ['C05', 'C10'], [(D, sub('''        seed.deserialize(&mut *self.deserializer)
    }
}

struct StructDeserializer''', '''        let deserializer = &mut *self.deserializer;
        seed.deserialize(deserializer)
    }
}

struct StructDeserializer'''))]),
    ('de-struct-index', ['C05', 'C15'], [(D, multi(sub("keys: Iter<'a, &'static str>,", "keys: &'static [&'static str],\n    position: usize,"), sub('            keys: keys.iter(),\n', '            keys,\n            position: 0,\n'), sub('    slice::Iter,\n', ''), sub('''        match self.keys.next() {
            Some(&key) => seed
                .deserialize(serde::de::value::BorrowedStrDeserializer::new(key))
                .map(Some),
            None => Ok(None),
        }''', '''        if self.position < self.keys.len() {
            let key = self.keys[self.position];
            self.position += 1;
            seed.deserialize(serde::de::value::BorrowedStrDeserializer::new(key))
                .map(Some)
        } else {
            Ok(None)
        }''')))]),
    ('de-ignored-via-any', ['C05', 'C15'], [(D, rsub(r'''    fn deserialize_ignored_any<V>\(self, _: V\) -> Result<V::Value, Self::Error>
    where
        V: de::Visitor<'de>,
    \{
        Err\(de::Error::custom\("dlhn is not a self-describing format"\)\)''', '''    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
    where
        V: de::Visitor<'de>,
    {
        self.deserialize_any(visitor)'''))]),
    ('de-char-bytes', ['C04', 'C01'], [(D, sub('''        visitor.visit_char(
            String::deserialize(self)?
                .chars()
                .into_iter()
                .next()
                .ok_or(Error::CharSize)?,
        )''', '''        match String::deserialize(self)?.chars().next() {
            Some(c) => visitor.visit_char(c),
            None => Err(Error::CharSize),
        }'''))]),
    ('de-attributes', ['C01', 'C03', 'C05', 'C10'], [(D, lambda s: upto_tests(s, lambda a: a.replace('    fn deserialize_', '    #[inline]\n    fn deserialize_')))]),
    ('contracts-untouched-docs', ['C01', 'C02', 'C05', 'C09'], [(S, lambda s: upto_tests(s, lambda a: a.replace('    fn serialize_', '    /// See the format.\n    fn serialize_'))), (B, lambda s: s.replace('    pub fn validate', '    /// Whether the header describes the body.\n    #[must_use]\n    pub fn validate'))]),
    ('de-size-hint', ['C05', 'C15'], [(D, lambda s: upto_tests(s, lambda a: a.replace("""            seed.deserialize(&mut *self.deserializer).map(Some)
        } else {
            Ok(None)
        }
    }
}
""", """            seed.deserialize(&mut *self.deserializer).map(Some)
        } else {
            Ok(None)
        }
    }

    fn size_hint(&self) -> Option<usize> {
        Some(self.count)
    }
}
""").replace("""    fn next_value_seed<V>(&mut self, seed: V) -> Result<V::Value, Self::Error>
    where
        V: de::DeserializeSeed<'de>,
    {
        seed.deserialize(&mut *self.deserializer)
    }
}

struct Struct""", """    fn next_value_seed<V>(&mut self, seed: V) -> Result<V::Value, Self::Error>
    where
        V: de::DeserializeSeed<'de>,
    {
        seed.deserialize(&mut *self.deserializer)
    }

    fn size_hint(&self) -> Option<usize> {
        Some(self.count)
    }
}

struct Struct""")))]),
    ('de-next-as-match', ['C05', 'C15'], [(D, lambda s: upto_tests(s, lambda a: a.replace("""        if self.count > 0 {
            self.count -= 1;
            seed.deserialize(&mut *self.deserializer).map(Some)
        } else {
            Ok(None)
        }
""", """        match self.count.checked_sub(1) {
            Some(left) => {
                self.count = left;
                Ok(Some(seed.deserialize(&mut *self.deserializer)?))
            }
            None => Ok(None),
        }
""")))]),
    ('de-next-early', ['C05', 'C15'], [(D, lambda s: upto_tests(s, lambda a: a.replace("""        if self.count > 0 {
            self.count -= 1;
            seed.deserialize(&mut *self.deserializer).map(Some)
        } else {
            Ok(None)
        }
""", """        if self.count == 0 {
            return Ok(None);
        }
        self.count -= 1;
        let value = seed.deserialize(&mut *self.deserializer)?;
        Ok(Some(value))
""")))]),
    ('header-de-left', ['C07', 'C08'], [(HD, sub('                let mut vec = Vec::with_capacity(size as usize);\n                for _ in 0..size {\n                    vec.push(self.deserialize_header()?);\n                }\n', '                let mut vec = Vec::with_capacity(size as usize);\n                let mut left = size;\n                while left != 0 {\n                    vec.push(self.deserialize_header()?);\n                    left -= 1;\n                }\n'))]),
    ('header-de-left-less', ['C07', 'C08'], [(HD, sub('                let mut vec = Vec::with_capacity(size as usize);\n                for _ in 0..size {\n                    vec.push(self.deserialize_header()?);\n                }\n', '                let mut vec = Vec::with_capacity(size as usize);\n                let mut left = size;\n                while 0 < left {\n                    vec.push(self.deserialize_header()?);\n                    left -= 1;\n                }\n'))]),
    ('header-de-not-all', ['C07', 'C08'], [(HD, sub('                let mut vec = Vec::with_capacity(size as usize);\n                for _ in 0..size {\n                    vec.push(self.deserialize_header()?);\n                }\n', '                let mut vec = Vec::with_capacity(size as usize);\n                while vec.len() != size as usize {\n                    let inner = self.deserialize_header()?;\n                    vec.push(inner);\n                }\n'))]),
    ('header-de-loop', ['C07', 'C08'], [(HD, sub('                let mut vec = Vec::with_capacity(size as usize);\n                for _ in 0..size {\n                    vec.push(self.deserialize_header()?);\n                }\n', '                let mut vec = Vec::with_capacity(size as usize);\n                loop {\n                    if vec.len() == usize::from(size) {\n                        break;\n                    }\n                    vec.push(self.deserialize_header()?);\n                }\n'))]),
    ('body-array-left', ['C09', 'C10'], [(B, sub('                for _ in 0..len {\n                    buf.push(Self::deserialize(inner, deserializer)?);\n                }\n', '                let mut left = len;\n                while left > 0 {\n                    buf.push(Self::deserialize(inner, deserializer)?);\n                    left -= 1;\n                }\n'))]),
    ('body-array-len', ['C09', 'C10'], [(B, sub('                for _ in 0..len {\n                    buf.push(Self::deserialize(inner, deserializer)?);\n                }\n', '                while (buf.len() as u64) < len {\n                    buf.push(Self::deserialize(inner, deserializer)?);\n                }\n'))]),
]


def move_map_key(s):
    i = s.index('struct MapKeySerializer')
    j = s.index('#[cfg(test)]\nmod tests')
    return s[:i], s[i:j], s[j:]


BIGGER = [(n, p, e if e else [(S, lambda s: (lambda a, m, t: a + 'mod key {\n    use super::{Error, Serializer};\n    use serde::{\n        ser::{self, Impossible},\n        Serialize,\n    };\n    use std::io::Write;\n\n'
    + '\n'.join(('    ' + l if l else l) for l in m.replace('struct MapKeySerializer', 'pub(super) struct MapKeySerializer', 1).replace('    fn new(ser', '    pub(super) fn new(ser', 1).rstrip('\n').split('\n')) + '\n}\nuse key::MapKeySerializer;\n\n' + t)(*move_map_key(s))
    ), (S, multi(sub('    ser::{self, Impossible},\n', '    ser,\n', 1) if False else (lambda s: s.replace('    ser::{self, Impossible},\n', '    ser::{self},\n', 1))))]) for n, p, e in BIGGER]
