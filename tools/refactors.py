"""Edits of /repo that change no behaviour: every check has to stay quiet on them (see plant.py quiet)."""
S, D, B, HD, HS = ['dlhn/src/' + f for f in ('ser.rs', 'de.rs', 'body/mod.rs', 'header/de.rs', 'header/ser.rs')]
V, Z, DATE, DT = ['dlhn/src/' + f for f in ('prefix_varint.rs', 'zigzag.rs', 'date.rs', 'date_time.rs')]
DEC, INT, FDEC, FDT, FDATE = ['dlhn/src/' + f for f in ('big_decimal.rs', 'big_int.rs', 'format/big_decimal.rs', 'format/date_time.rs', 'format/date.rs')]
DER = 'dlhn_derive/src/lib.rs'


def upto_tests(s, f):
    a, b, c = s.partition('#[cfg(test)]\nmod tests')
    return f(a) + b + c


def sub(old, new, count=1):
    def f(s):
        n = s.count(old)
        assert n == count, (n, old)
        return s.replace(old, new)
    return f


def every(old, new):
    def f(s):
        assert old in s, old
        return upto_tests(s, lambda a: a.replace(old, new))
    return f


REFACTORS = [
    ('ser-write-helper', ['C01', 'C02', 'C04', 'C05', 'C15'], [(S, lambda s: upto_tests(s, lambda a: a
        .replace('        Self { output }\n    }\n', '''        Self { output }
    }

    fn put(&mut self, bytes: &[u8]) -> Result<(), Error> {
        self.output.write_all(bytes).or(Err(Error::Write))
    }
''').replace('self.output.write_all(&buf[..size]).or(Err(Error::Write))', 'self.put(&buf[..size])')))]),
    ('ser-bool-cast', ['C01', 'C02', 'C15'], [(S, sub('''        if v {
            self.output.write_all(&[1]).or(Err(Error::Write))
        } else {
            self.output.write_all(&[0]).or(Err(Error::Write))
        }
''', '        self.output.write_all(&[v as u8]).or(Err(Error::Write))\n'))]),
    ('ser-bool-byte', ['C01', 'C02'], [(S, sub('''        if v {
            self.output.write_all(&[1]).or(Err(Error::Write))
        } else {
            self.output.write_all(&[0]).or(Err(Error::Write))
        }
''', '''        let byte = if v { 1u8 } else { 0u8 };
        self.output.write_all(&[byte]).or(Err(Error::Write))
'''))]),
    ('ser-str-match', ['C04', 'C06'], [(S, sub('''        (v.len() as u64).serialize(&mut *self)?;
        self.output.write_all(v.as_bytes()).or(Err(Error::Write))
''', '''        let bytes = v.as_bytes();
        (bytes.len() as u64).serialize(&mut *self)?;
        match self.output.write_all(bytes) {
            Ok(()) => Ok(()),
            Err(_) => Err(Error::Write),
        }
'''))]),
    ('ser-str-as-bytes', ['C04', 'C06'], [(S, sub('''        (v.len() as u64).serialize(&mut *self)?;
        self.output.write_all(v.as_bytes()).or(Err(Error::Write))
''', '''        self.serialize_bytes(v.as_bytes())
'''))]),
    ('ser-signed-by-unsigned', ['C01', 'C02'], [(S, sub('''        let mut buf = [0u8; u16::PREFIX_VARINT_BUF_SIZE];
        let size = v.encode_zigzag().encode_prefix_varint(&mut buf);
        self.output.write_all(&buf[..size]).or(Err(Error::Write))
''', '''        self.serialize_u16(v.encode_zigzag())
'''))]),
    ('ser-map-err', ['C01', 'C02', 'C04', 'C05', 'C06', 'C15'], [(S, every('.or(Err(Error::Write))', '.map_err(|_| Error::Write)'))]),
    ('ser-seq-match', ['C05', 'C13', 'C14'], [(S, sub('''        if let Some(len) = len {
            len.serialize(&mut *self)?;
        }
        Ok(self)
''', '''        match len {
            Some(len) => len.serialize(&mut *self)?,
            None => {}
        }
        Ok(self)
''', 2))]),
    ('de-bool-if', ['C01', 'C03', 'C05'], [(D, sub('''        match buf[0] {
            0 => visitor.visit_bool(false),
            1 => visitor.visit_bool(true),
            _ => Err(Error::Read),
        }
''', '''        if buf[0] > 1 {
            return Err(Error::Read);
        }
        visitor.visit_bool(buf[0] == 1)
'''))]),
    ('de-bytes-chunk', ['C04', 'C10', 'C15'], [(D, sub('''                self.reader
                    .read_exact(&mut buf[..(min(MAX_SIZE, len - pos)) as usize])
                    .or(Err(Error::Read))?;
                result.extend_from_slice(&buf[..(min(MAX_SIZE, len - pos)) as usize]);
                pos += min(MAX_SIZE, len - pos);
''', '''                let chunk = min(MAX_SIZE, len - pos);
                self.reader
                    .read_exact(&mut buf[..chunk as usize])
                    .or(Err(Error::Read))?;
                result.extend_from_slice(&buf[..chunk as usize]);
                pos += chunk;
'''))]),
    ('de-bytes-while-pos', ['C04', 'C10', 'C15'], [(D, sub('while result.len() < len as usize {', 'while pos < len {'))]),
    ('de-bytes-loop', ['C04', 'C15'], [(D, sub('''            let mut pos = 0;
            while result.len() < len as usize {
                self.reader
                    .read_exact(&mut buf[..(min(MAX_SIZE, len - pos)) as usize])
                    .or(Err(Error::Read))?;
                result.extend_from_slice(&buf[..(min(MAX_SIZE, len - pos)) as usize]);
                pos += min(MAX_SIZE, len - pos);
            }
''', '''            let mut left = len;
            while left > 0 {
                let chunk = min(MAX_SIZE, left) as usize;
                self.reader
                    .read_exact(&mut buf[..chunk])
                    .or(Err(Error::Read))?;
                result.extend_from_slice(&buf[..chunk]);
                left -= chunk as u64;
            }
'''))]),
    ('de-signed-steps', ['C01', 'C03'], [(D, sub('''        visitor.visit_i16(
            u16::decode_prefix_varint(self.reader)
                .map(i16::decode_zigzag)
                .or(Err(Error::Read))?,
        )
''', '''        let v = u16::decode_prefix_varint(self.reader).or(Err(Error::Read))?;
        visitor.visit_i16(i16::decode_zigzag(v))
'''))]),
    ('de-map-err', ['C01', 'C03', 'C04', 'C05', 'C15'], [(D, every('.or(Err(Error::Read))', '.map_err(|_| Error::Read)'))]),
    ('de-string-size', ['C04', 'C15'], [(D, sub('''            let mut body_buf = [0; MAX_SIZE as usize];
            self.reader
                .read_exact(&mut body_buf[..(len as usize)])
                .or(Err(Error::Read))?;
            visitor.visit_string(
                String::from_utf8(body_buf[..(len as usize)].to_vec()).or(Err(Error::Read))?,
            )
''', '''            let size = len as usize;
            let mut body_buf = [0; MAX_SIZE as usize];
            self.reader
                .read_exact(&mut body_buf[..size])
                .or(Err(Error::Read))?;
            let s = String::from_utf8(body_buf[..size].to_vec()).or(Err(Error::Read))?;
            visitor.visit_string(s)
'''))]),
    ('de-string-buffer', ['C04'], [(D, sub('const MAX_SIZE: u64 = 128;', 'const MAX_SIZE: u64 = 256;'))]),
    ('de-seq-early', ['C05', 'C10'], [(D, sub('''        if self.count > 0 {
            self.count -= 1;
            seed.deserialize(&mut *self.deserializer).map(Some)
        } else {
            Ok(None)
        }
''', '''        if self.count == 0 {
            return Ok(None);
        }
        self.count -= 1;
        Ok(Some(seed.deserialize(&mut *self.deserializer)?))
''', 2))]),
    ('de-option-match', ['C05'], [(D, sub('''        if bool::deserialize(&mut *self)? {
            visitor.visit_some(self)
        } else {
            visitor.visit_none()
        }
''', '''        match bool::deserialize(&mut *self)? {
            false => visitor.visit_none(),
            true => visitor.visit_some(self),
        }
'''))]),
    ('de-char-steps', ['C01', 'C03', 'C04'], [(D, sub('''        visitor.visit_char(
            String::deserialize(self)?
                .chars()
                .into_iter()
                .next()
                .ok_or(Error::CharSize)?,
        )
''', '''        let s = String::deserialize(self)?;
        match s.chars().next() {
            Some(c) => visitor.visit_char(c),
            None => Err(Error::CharSize),
        }
'''))]),
    ('body-array-while', ['C09', 'C10'], [(B, sub('''                for _ in 0..len {
                    buf.push(Self::deserialize(inner, deserializer)?);
                }
                Ok(Self::Array(buf))
''', '''                let mut i = 0;
                while i < len {
                    buf.push(Self::deserialize(inner, deserializer)?);
                    i += 1;
                }
                Ok(Self::Array(buf))
'''))]),
    ('body-tuple-collect', ['C09', 'C10'], [(B, sub('''                let mut buf = Vec::with_capacity(inner.len());
                for inner in inner.iter() {
                    buf.push(Self::deserialize(inner, deserializer)?);
                }
                Ok(Self::Tuple(buf))
''', '''                let elements = inner
                    .iter()
                    .map(|inner| Self::deserialize(inner, deserializer))
                    .collect::<Result<Vec<_>, _>>()?;
                Ok(Self::Tuple(elements))
'''))]),
    ('body-map-steps', ['C09', 'C10'], [(B, sub('''                    buf.insert(
                        String::deserialize(&mut *deserializer)?,
                        Self::deserialize(inner, deserializer)?,
                    );
''', '''                    let key = String::deserialize(&mut *deserializer)?;
                    let value = Self::deserialize(inner, deserializer)?;
                    buf.insert(key, value);
'''))]),
    ('body-enum-match', ['C09', 'C10'], [(B, sub('''                let inner = inner.get(i as usize).ok_or(Error::Read)?;
                Ok(Self::Enum(
                    i,
                    Box::new(Self::deserialize(inner, deserializer)?),
                ))
''', '''                match inner.get(i as usize) {
                    Some(inner) => {
                        let value = Self::deserialize(inner, deserializer)?;
                        Ok(Self::Enum(i, Box::new(value)))
                    }
                    None => Err(Error::Read),
                }
'''))]),
    ('body-tuple-fold', ['C05', 'C09'], [(B, sub('''                for value in v.iter() {
                    tuple.serialize_element(value)?;
                }
''', '''                for value in v {
                    tuple.serialize_element(value)?;
                }
'''))]),
    ('validate-match', ['C09', 'C10', 'C11'], [(B, sub('''                if let Some(v) = inner_body {
                    v.validate(inner_header)
                } else {
                    true
                }
''', '''                match inner_body {
                    Some(v) => v.validate(inner_header),
                    None => true,
                }
'''))]),
    ('validate-loops', ['C09', 'C10', 'C11'], [(B, sub('''                inner_body.iter().all(|v| v.validate(inner_header))
''', '''                for v in inner_body {
                    if !v.validate(inner_header) {
                        return false;
                    }
                }
                true
'''))]),
    ('validate-helper', ['C09', 'C10'], [(B, lambda s: sub('''                inner_headers.len() == inner_bodies.len()
                    && inner_headers
                        .iter()
                        .zip(inner_bodies)
                        .all(|(header, body)| body.validate(header))
''', '''                Self::validate_all(inner_headers, inner_bodies)
''')(sub('''    pub fn validate(&self, header: &Header) -> bool {
''', '''    fn validate_all(headers: &[Header], bodies: &[Body]) -> bool {
        headers.len() == bodies.len()
            && headers
                .iter()
                .zip(bodies)
                .all(|(header, body)| body.validate(header))
    }

    pub fn validate(&self, header: &Header) -> bool {
''')(s)))]),
    ('header-de-helper', ['C07', 'C08', 'C15'], [(HD, lambda s: upto_tests(s, lambda a: a.replace('''                let size = u16::decode_prefix_varint(self)?;
                let mut vec = Vec::with_capacity(size as usize);
                for _ in 0..size {
                    vec.push(self.deserialize_header()?);
                }
                Ok(Header::Tuple(vec))
''', '''                deserialize_headers(self).map(Header::Tuple)
''').replace('''                let size = u16::decode_prefix_varint(self)?;
                let mut buf = Vec::with_capacity(size as usize);
                for _ in 0..size {
                    buf.push(self.deserialize_header()?);
                }
                Ok(Header::Enum(buf))
''', '''                deserialize_headers(self).map(Header::Enum)
''').replace('''impl<R: Read> DeserializeHeader<R> for R {
''', '''fn deserialize_headers<R: Read>(reader: &mut R) -> Result<Vec<Header>> {
    let size = u16::decode_prefix_varint(reader)?;
    let mut headers = Vec::with_capacity(size as usize);
    for _ in 0..size {
        headers.push(reader.deserialize_header()?);
    }
    Ok(headers)
}

impl<R: Read> DeserializeHeader<R> for R {
''')))]),
    ('header-de-map', ['C07', 'C08'], [(HD, sub('''                let inner = self.deserialize_header()?;
                Ok(Header::Optional(Box::new(inner)))
''', '''                Ok(Header::Optional(Box::new(self.deserialize_header()?)))
'''))]),
    ('header-de-while', ['C07', 'C08'], [(HD, sub('''                let mut vec = Vec::with_capacity(size as usize);
                for _ in 0..size {
                    vec.push(self.deserialize_header()?);
                }
''', '''                let size = size as usize;
                let mut vec = Vec::with_capacity(size);
                while vec.len() < size {
                    vec.push(self.deserialize_header()?);
                }
'''))]),
    ('header-ser-try-for-each', ['C07', 'C11', 'C15'], [(HS, sub('''        for v in inner {
            v.serialize(writer)?
        }
        Ok(())
''', '''        inner.iter().try_for_each(|v| v.serialize(writer))
'''))]),
    ('header-ser-iter', ['C07'], [(HS, sub('''        for v in inner {
            v.serialize(writer)?
        }
''', '''        for v in inner.iter() {
            v.serialize(writer)?;
        }
'''))]),
    ('header-ser-index', ['C07'], [(HS, sub('''        for v in inner {
            v.serialize(writer)?
        }
''', '''        for i in 0..inner.len() {
            inner[i].serialize(writer)?;
        }
'''))]),
    ('header-ser-count', ['C07', 'C11'], [(HS, sub('''        let mut buf = [0u8; u16::PREFIX_VARINT_BUF_SIZE];
        let size = (inner.len() as u16).encode_prefix_varint(&mut buf);
        writer.write_all(&buf[..size])?;
        for''', '''        let count = inner.len() as u16;
        let mut buf = [0u8; u16::PREFIX_VARINT_BUF_SIZE];
        let size = count.encode_prefix_varint(&mut buf);
        writer.write_all(&buf[..size])?;
        for'''))]),
    ('varint-ranges', ['C01', 'C02', 'C03'], [(V, lambda s: sub('0 | 1 | 2 | 3 | 4 | 5 | 6 | 7 =>', '0..=7 =>')(sub('8 | 9 | 10 | 11 | 12 | 13 | 14 =>', '8..=14 =>')(s)))]),
    ('varint-if', ['C01', 'C02', 'C03'], [(V, sub('''        match prefix.leading_ones() as u8 {
            0 => Ok(prefix as u16),
            1 => {
                let mut buf = [0u8; 1];
                reader.read_exact(&mut buf)?;
                Ok((prefix as u16 & 0x3f) | ((buf[0] as u16) << 6))
            }
            _ => {
                let mut buf = [0u8; 2];
                reader.read_exact(&mut buf)?;
                Ok(u16::from_le_bytes(buf))
            }
        }
''', '''        let ones = prefix.leading_ones();
        if ones == 0 {
            return Ok(prefix as u16);
        }
        if ones == 1 {
            let low = prefix as u16 & 0x3f;
            let mut buf = [0u8; 1];
            reader.read_exact(&mut buf)?;
            let high = (buf[0] as u16) << 6;
            return Ok(high | low);
        }
        let mut buf = [0u8; 2];
        reader.read_exact(&mut buf)?;
        Ok(u16::from_le_bytes(buf))
'''))]),
    ('varint-byte-helper', ['C01', 'C03', 'C08'], [(V, sub('''    let mut prefix_buf = [0u8; 1];
    reader.read_exact(&mut prefix_buf)?;
    Ok(prefix_buf[0])
''', '''    let mut prefix = [0u8];
    reader.read_exact(&mut prefix).map(|_| prefix[0])
'''))]),
    ('varint-bytes', ['C01', 'C02'], [(V, sub('''                buf[0] = 254;
                buf[1] = value as u8;
                buf[2] = (value >> 8) as u8;
                buf[3] = (value >> 16) as u8;
                buf[4] = (value >> 24) as u8;
                buf[5] = (value >> 32) as u8;
                buf[6] = (value >> 40) as u8;
                buf[7] = (value >> 48) as u8;
                8
''', '''                buf[0] = 254;
                buf[1..8].copy_from_slice(&value.to_le_bytes()[..7]);
                8
'''))]),
    ('zigzag-casts', ['C01', 'C02'], [(Z, lambda s: sub('((self << 1) ^ (self >> 63)) as u64', '(self << 1) as u64 ^ (self >> 63) as u64')(
        sub('(value >> 1) as i64 ^ (-(value as i64 & 1))', '((value >> 1) ^ (value & 1).wrapping_neg()) as i64')(s)))]),
    ('date-let-else', ['C10', 'C13'], [(DATE, sub('''        let year = seq
            .next_element::<i32>()?
            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
            .checked_add(DATE_YEAR_OFFSET)
            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
''', '''        let offset_year = seq
            .next_element::<i32>()?
            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
        let year = match offset_year.checked_add(DATE_YEAR_OFFSET) {
            Some(year) => year,
            None => return Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)),
        };
'''))]),
    ('date-locals', ['C13'], [(DATE, sub('''        tuple.serialize_element(&(self.year - DATE_YEAR_OFFSET))?;
        tuple.serialize_element(&(self.ordinal - DATE_ORDINAL_OFFSET))?;
''', '''        let Date { year, ordinal } = self;
        let year = year - DATE_YEAR_OFFSET;
        let ordinal = ordinal - DATE_ORDINAL_OFFSET;
        tuple.serialize_element(&year)?;
        tuple.serialize_element(&ordinal)?;
'''))]),
    ('date-map-err', ['C13'], [(DATE, sub('.or(Err(()))', '.map_err(|_| ())')), (FDATE, lambda s: s.replace('.or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))', '.map_err(|_| de::Error::invalid_value(Unexpected::Seq, &Error::Read))'))]),
    ('date-time-match', ['C13'], [(DT, sub('''        OffsetDateTime::from_unix_timestamp(self.unix_timestamp)
            .or(Err(()))?
            .checked_add((self.nanosecond as i64).nanoseconds())
            .ok_or(())
''', '''        let nanoseconds = (self.nanosecond as i64).nanoseconds();
        match OffsetDateTime::from_unix_timestamp(self.unix_timestamp) {
            Ok(seconds) => seconds.checked_add(nanoseconds).ok_or(()),
            Err(_) => Err(()),
        }
'''))]),
    ('format-date-time-locals', ['C13'], [(FDT, sub('''    seq.serialize_element(&date_time.unix_timestamp())?;
    seq.serialize_element(&date_time.time().nanosecond())?;
''', '''    let seconds = date_time.unix_timestamp();
    let nanosecond = date_time.nanosecond();
    seq.serialize_element(&seconds)?;
    seq.serialize_element(&nanosecond)?;
'''))]),
    ('decimal-early', ['C14'], [(DEC, lambda s: sub('''        if v.is_zero() {
            Self {
                signed_bytes: Vec::new(),
                scale: 0,
            }
        } else {
            let (bigint, scale) = v.normalized().into_bigint_and_exponent();
            Self {
                signed_bytes: bigint.to_signed_bytes_le(),
                scale,
            }
        }
''', '''        if v.is_zero() {
            return Self {
                signed_bytes: vec![],
                scale: 0,
            };
        }
        let (digits, scale) = v.normalized().into_bigint_and_exponent();
        Self {
            signed_bytes: digits.to_signed_bytes_le(),
            scale,
        }
''')(sub('if self.signed_bytes == [] {', 'if self.signed_bytes.is_empty() {')(s)))]),
    ('int-bytes-helper', ['C14'], [(INT, sub('''        if v.is_zero() {
            Self(Vec::new())
        } else {
            Self(v.to_signed_bytes_le())
        }
''', '''        let bytes = if v.is_zero() {
            Vec::new()
        } else {
            v.to_signed_bytes_le()
        };
        Self(bytes)
'''))]),
    ('format-decimal-scale', ['C14'], [(FDEC, sub('''            Ok(BigDecimal::new(
                digits,
                seq.next_element::<i64>()?
                    .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?,
            ))
''', '''            let scale = seq
                .next_element::<i64>()?
                .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
            Ok(BigDecimal::new(digits, scale))
'''))]),
    ('derive-error-helper', ['C12'], [(DER, lambda s: s.replace('''syn::Error::new(
                        Span::call_site(),
                        "skip_serializing_if is not supported",
                    )
                    .to_compile_error()
                    .into()''', 'not_supported("skip_serializing_if is not supported")').replace('''syn::Error::new(Span::call_site(), "union is not supported")
            .to_compile_error()
            .into()''', 'not_supported("union is not supported")') + '''
fn not_supported(message: &str) -> TokenStream {
    syn::Error::new(Span::call_site(), message)
        .to_compile_error()
        .into()
}
''')]),
    ('derive-filter', ['C12'], [(DER, sub('''            let mut types = Vec::new();

            for field in data.fields.iter() {
                if has_skip_serializing_if(field.attrs.iter()) {
                    return syn::Error::new(
                        Span::call_site(),
                        "skip_serializing_if is not supported",
                    )
                    .to_compile_error()
                    .into();
                }

                if !is_skip_field(field.attrs.iter()) {
                    types.push(field.ty.to_token_stream());
                }
            }
''', '''            if data
                .fields
                .iter()
                .any(|field| has_skip_serializing_if(field.attrs.iter()))
            {
                return syn::Error::new(
                    Span::call_site(),
                    "skip_serializing_if is not supported",
                )
                .to_compile_error()
                .into();
            }

            let types = data
                .fields
                .iter()
                .filter(|field| !is_skip_field(field.attrs.iter()))
                .map(|field| field.ty.to_token_stream())
                .collect::<Vec<_>>();
'''))]),
    ('derive-attr-helper', ['C12'], [(DER, lambda s: s[:s.index('fn is_skip_field')] + '''fn is_skip_field(attributes: Iter<Attribute>) -> bool {
    has_serde_word(attributes, &[SKIP_ATTRIBUTE, SKIP_SERIALIZING_ATTRIBUTE])
}

fn has_skip_serializing_if(attributes: Iter<Attribute>) -> bool {
    has_serde_word(attributes, &[SKIP_SERIALIZING_IF_ATTRIBUTE])
}

fn has_serde_word(mut attributes: Iter<Attribute>, words: &[&str]) -> bool {
    attributes.any(|attribute| {
        attribute.path.is_ident(SERDE_ATTRIBUTE)
            && match attribute.parse_meta() {
                Ok(Meta::List(v)) => v.nested.iter().any(|v| match v {
                    NestedMeta::Meta(v) => words.iter().any(|w| v.path().is_ident(w)),
                    _ => false,
                }),
                _ => false,
            }
    })
}
''')]),
    ('derive-one-arm', ['C12'], [(DER, sub('''                                syn::Fields::Unnamed(_) => {
                                    let mut buf = vec![TUPLE_CODE];
                                    buf.append(
                                        &mut (types.len() as u16).encode_prefix_varint_vec(),
                                    );
                                    outers.push(
                                        proc_macro2::TokenStream::from_str(
                                            format!("{:?}", buf).as_str(),
                                        )
                                        .unwrap(),
                                    );

                                    inners.push(types);
                                }
                                syn::Fields::Unit => todo!(),
''', '''                                syn::Fields::Unnamed(_) => {
                                    let mut buf = vec![TUPLE_CODE];
                                    let mut count = (types.len() as u16).encode_prefix_varint_vec();
                                    buf.append(&mut count);
                                    let literal = format!("{:?}", buf);
                                    outers.push(
                                        proc_macro2::TokenStream::from_str(literal.as_str()).unwrap(),
                                    );

                                    inners.push(types);
                                }
                                syn::Fields::Unit => todo!(),
'''))]),
    ('key-return', ['C06'], [(S, sub('key.serialize(MapKeySerializer::new(self))', '{\n            let key_serializer = MapKeySerializer::new(&mut **self);\n            key.serialize(key_serializer)\n        }'))]),
    ('map-delegates', ['C05', 'C06'], [(S, sub('''        value.serialize(&mut **self)
    }

    fn end(self) -> Result<Self::Ok, Self::Error> {
        Ok(())
    }
}

impl<'a, W: Write> ser::SerializeStruct for''', '''        let ser: &mut Serializer<W> = &mut **self;
        value.serialize(ser)
    }

    fn end(self) -> Result<Self::Ok, Self::Error> {
        Ok(())
    }
}

impl<'a, W: Write> ser::SerializeStruct for'''))]),
]
