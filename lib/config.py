"""What decides each property."""

KANI = 'Kani 0.68 / CBMC: the compilation of Rust to its goto program, the memory and arithmetic models, the SAT solver'
DEPS = 'the standard library (std::io, alloc, collections), and serde_derive as their documentation says'
SEARCH = ('random and enumerated cases from a seeded generator; a case counts as non-trivial if it reached the code '
          'under test with an input of its own (hash of the input), duplicates not counted')
NO_UB = 'termination of loops is not shown by Kani beyond the unwinding that it shows to be complete'

# What of a unit belongs to a property: matched against "modules :: file header: function" or "modules :: lemma name".
SERIALIZER = r"for &'a mut Serializer<W>: serialize_"
NUMBERS = r'^(varint|le_bytes|zigzag) |' + SERIALIZER + r'(bool|[iuf]\d+)$'
TEXT = r'^varint |composites :: lemma lemma_(bytes|octets)|' + SERIALIZER + r'(str|bytes|char)$'
COMPOSITE = (r"^(composites|btree)|Serialize\w+ for &'a mut|" + SERIALIZER +
             r'(none|some|unit|seq|map|struct|tuple|\w+_(struct|variant))$')
KEYS = r'MapKeySerializer|SerializeMap|^(ser_spec|glue|composites)'
SER = r'^(ser|ser_spec|varint|zigzag|le_bytes) '

DESERIALIZER = r"for &'a mut Deserializer<'de, R>: deserialize_"
DE_NUMBERS = r'^varint |' + DESERIALIZER + r'(bool|[iuf]\d+|unit|option|char|identifier)$|de_glue :: .* for (\(\)|bool|[iuf]\d+|char|Unit\w+|Bool\w+|[IUF]\d+\w+|Char\w+): |codec :: lemma (round_trip|more|theorem_\w+)$'
DE_TEXT = r'^varint |' + DESERIALIZER + r'(str|string|bytes|byte_buf|char)$|de_glue :: .*\b(String|ByteBuf|StringVisitor|ByteBufVisitor): |codec :: lemma (round_trip|more|theorem_\w+)$'
DE_COMPOSITE = (r"^(codec|de_glue|btree)|(Access|Deserializer)<'\w+, |" + DESERIALIZER +
                r'(option|unit|seq|map|struct|tuple|enum|identifier|\w+_struct)$')
DE = r'^(de|de_spec|varint|zigzag) '

DATES = r'^(date|time|outside|leaf|value_spec|convert_lemmas :: lemma theorem_date)|OffsetDateTime'
BIG = r'^(numbers|num_bigint|bigdecimal|outside|leaf|value_spec)|[bB]ig_|theorem_(uint|int|decimal)|convert_lemmas :: lemma lemma'
TIME = 'the time crate is as the stand-in of verus/libs.rs says (searched for differences on every run)'
NUM = 'the num-bigint and bigdecimal crates are as the stand-ins of verus/libs.rs say (searched for differences on every run)'

STRUCTS = SERIALIZER + r"(unit|struct|tuple|\w+_(struct|variant))$|Serialize(Struct|Tuple)\w* for &'a mut|^ser_values"
SYN = ('syn, quote and proc_macro2 are as the stand-ins of verus/derive_libs.rs say, and what the quoted code does is as lib/extract.py '
       'reads it (compared with what the compiled macro generates, on the sampled definitions)')

CONFIG = {
    'C01': dict(level='proof', secs=8, verus={'u0_varint': '.', 'u3_ser': NUMBERS, 'u4_de': DE_NUMBERS}, kani=['c01_'], rule=SEARCH,
                trusted=[KANI, DEPS],
                assumptions=['characters are enumerated completely by running the code (1,112,064 values), not by a proof', NO_UB]),
    'C02': dict(level='proof', secs=8, verus={'u0_varint': '.', 'u3_ser': NUMBERS}, kani=['c02_'], contracts='contracts::proofs', rule=SEARCH,
                trusted=[KANI, DEPS], assumptions=[NO_UB]),
    'C03': dict(level='proof', secs=8, verus={'u0_varint': '.', 'u4_de': DE_NUMBERS}, kani=['c03_'], rule=SEARCH,
                trusted=[KANI, DEPS],
                assumptions=['inputs longer than one byte more than the type can take behave like those', NO_UB]),
    'C04': dict(level='proof', secs=15, verus={'u3_ser': TEXT, 'u4_de': DE_TEXT}, rule=SEARCH, trusted=[DEPS], assumptions=[]),
    'C05': dict(level='proof', secs=15, verus={'u3_ser': COMPOSITE, 'u4_de': DE_COMPOSITE}, rule=SEARCH, trusted=[DEPS], assumptions=[]),
    'C06': dict(level='proof', secs=15, verus={'u3_ser': KEYS}, rule=SEARCH, trusted=[DEPS], assumptions=[]),
    'C07': dict(level='proof', secs=15, verus={'u1_header': 'varint|header_spec|header'}, rule=SEARCH, trusted=[DEPS], assumptions=[]),
    'C08': dict(level='proof', secs=15, verus={'u1_header': 'varint|header_spec|header::de'}, rule=SEARCH, trusted=[DEPS], assumptions=[]),
    'C09': dict(level='proof', secs=15, verus={'u2_body': '.', 'u3_ser': '^body', 'u4_de': '^(date|de_types|octets) |' + DE_NUMBERS}, rule=SEARCH, trusted=[DEPS], assumptions=[]),
    'C10': dict(level='proof', secs=15, verus={'u2_body': '.', 'u4_de': '^(de|date|de_types|octets) '}, rule=SEARCH, trusted=[DEPS], assumptions=[]),
    'C11': dict(level='proof', secs=15, verus={'u1_header': 'header', 'u2_body': '^body',
                'u3_ser': COMPOSITE + '|^(ser_values|date|body)', 'u5_described': 'header|described|enc'}, rule=SEARCH, trusted=[DEPS], assumptions=[]),
    'C12': dict(level='proof', secs=15, derived=60, probes=True, verus={'u7_derive': '.', 'u5_described': 'lemma theorem_derived|lemma lemma_tuple',
                'u3_ser': STRUCTS}, rule=SEARCH, trusted=[DEPS, SYN],
                assumptions=['a definition has at most 65535 fields in a struct or variant and 65535 variants',
                             'skipped variants, and structs of one unnamed skipped field: known findings']),
    'C13': dict(level='proof', secs=15, verus={'u3_ser': '^date|derived|^ser_format::date', 'u4_de': '^date|DateTime|de_types :: lemma|^de_format::date',
                'u6_convert': DATES}, rule=SEARCH, trusted=[DEPS, TIME], assumptions=['a date-time is its instant: in what offset it is written does not matter']),
    'C14': dict(level='proof', secs=15, verus={'u3_ser': '^ser_types|^ser_format', 'u4_de': '^(de_types|octets) |^de_format::big',
                'u6_convert': BIG}, rule=SEARCH, trusted=[DEPS, NUM], assumptions=['decimals whose scale without trailing zeros is one of 64 bits']),
    'C15': dict(level='proof', secs=15, verus={'u0_varint': '.', 'u1_header': '^header|^varint', 'u2_body': '^body', 'u3_ser': SER, 'u4_de': DE}, kani=['c15_'], rule=SEARCH, trusted=[KANI, DEPS], assumptions=[]),
}

# Contracts that one unit assumes and another one shows (the same contract, of the same shared template).
ELSEWHERE = [
    (r'impl (PrefixVarint|ZigZag)<', 'u0_varint (checks C01, C02, C03, C15)'),
    (r'impl Deserialize for (ByteBuf|Big\w+|Date|DateTime|[iuf]\d+) ::', 'u4_de, on the deserializer (checks C03, C13, C14)'),
    (r'impl Deserialize for (bool|String) ::', 'u4_de, as impl Shown: the same code of serde'),
    (r'impl (Serialize|AsKey) for (u32|u64|usize|String) :: fn (serialize|as_key)$', 'u3_ser, as impl Shown and ShownAsKey: the same code of serde'),
    (r'impl Serialize for Body :: fn serialize(_key)?$', 'u3_ser, impl Serialize for Body: this is the induction hypothesis for the values inside'),
]
# Contracts that Verus assumes of the standard library and of the time crate, and the harnesses of assumed/ that decide them.
DISCHARGED = [
    (r'fn (copy_to_tail|read_part)$', 'assumed_std_buffer_', 'for buffers of 3, 5 and 9 bytes, which are all that there are, and a reader of bytes in memory'),
    (r'impl LeBytes<\d> for u(16|32|64) ', 'assumed_std_le_u', ''),
    (r'impl LeBytes<\d> for (u8|i8|f32|f64) ', 'assumed_std_le_bytes_and_floats', ''),
    (r'fn min(_u64)?$', 'assumed_std_min', ''),
    (r'fn char_to_string$', 'assumed_std_char_to_string', ''),
    (r'impl Date ::|fn max_year_$', 'assumed_time_dates', ''),
    (r'impl Time ::', 'assumed_time_time', ''),
    (r'impl OffsetDateTime :: fn (nanosecond|microsecond|millisecond|time)$', 'deep_time_parts', 'for any date-time in UTC'),
    (r'impl OffsetDateTime :: fn unix_timestamp$', 'deep_time_unix_timestamp', 'for any date-time in UTC: its days, hours, minutes and seconds'),
    (r'impl OffsetDateTime :: fn unix_timestamp_nanos$', 'deep_time_nanos', 'for any date-time in UTC'),
    (r'impl OffsetDateTime :: fn replace_nanosecond$', 'assumed_time_replace_nanosecond', 'for any date-time in UTC'),
]
for c in CONFIG:
    if c in ('C01', 'C02', 'C03', 'C04'):
        CONFIG[c]['assumed'] = ['assumed_std_']
    if c == 'C13':
        CONFIG[c]['assumed'] = ['assumed_time_']
        CONFIG[c]['assumed_thorough'] = ['deep_time_']
