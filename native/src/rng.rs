//! Deterministic case generation: one 64-bit seed per case, so that a case can be replayed alone.
use std::sync::OnceLock;

/// Numbers and strings found in the source under test, so that behaviour keyed on a constant is
/// reached.
pub struct Dict {
    pub ints: Vec<u64>,
    pub strings: Vec<String>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn load_dict(path: Option<&str>) {
    let mut d = Dict { ints: vec![], strings: vec![] };
    if let Some(p) = path {
        if let Ok(t) = std::fs::read_to_string(p) {
            for l in t.lines() {
                if let Some(x) = l.strip_prefix("i ") {
                    if let Ok(v) = x.parse() {
                        d.ints.push(v);
                    }
                } else if let Some(x) = l.strip_prefix("s ") {
                    d.strings.push(x.to_string());
                }
            }
        }
    }
    let _ = DICT.set(d);
}

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| Dict { ints: vec![], strings: vec![] })
}

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x6a09e667f3bcc909))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// An integer of at most `bits` bits, biased to boundaries and to constants of the source.
    pub fn int(&mut self, bits: u32) -> u64 {
        let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let d = dict();
        let v = match self.below(10) {
            0 | 1 => {
                // next to a power of two
                let p = 1u64.checked_shl(self.below(bits as u64 + 1) as u32).unwrap_or(0);
                p.wrapping_add(self.below(7)).wrapping_sub(3)
            }
            2 if !d.ints.is_empty() => {
                let v = *self.pick(&d.ints);
                v.wrapping_add(self.below(5)).wrapping_sub(2)
            }
            3 => self.below(256),
            4 => u64::MAX - self.below(256),
            5 => {
                // few bits set or cleared
                let mut v = 0u64;
                for _ in 0..1 + self.below(3) {
                    v |= 1u64 << self.below(64);
                }
                if self.one_in(2) {
                    !v
                } else {
                    v
                }
            }
            6 => {
                // the same byte repeated
                self.below(256).wrapping_mul(0x0101010101010101)
            }
            _ => {
                // uniform in a random number of bits
                let b = 1 + self.below(bits as u64) as u32;
                self.next() >> (64 - b)
            }
        };
        v & mask
    }
    pub fn i32(&mut self) -> i32 {
        let v = self.int(32) as u32;
        if self.one_in(2) {
            v as i32
        } else {
            ((v >> 1) as i32) ^ -((v & 1) as i32)
        }
    }
    pub fn i64(&mut self) -> i64 {
        let v = self.int(64);
        if self.one_in(2) {
            v as i64
        } else {
            ((v >> 1) as i64) ^ -((v & 1) as i64)
        }
    }
    pub fn i16(&mut self) -> i16 {
        self.i32() as i16
    }
    pub fn f32bits(&mut self) -> u32 {
        match self.below(4) {
            0 => *self.pick(&[
                0u32, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0000, 0x7f80_0001,
                0x7fbf_ffff, 0xffff_ffff, 1, 0x0080_0000, 0x7f7f_ffff, 0x3f80_0000, 0x8000_0001,
            ]),
            1 => self.int(32) as u32,
            _ => self.next() as u32,
        }
    }
    pub fn f64bits(&mut self) -> u64 {
        match self.below(4) {
            0 => *self.pick(&[
                0u64, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 0xfff8 << 48,
                0x7ff0_0000_0000_0001, 0x7ff7_ffff_ffff_ffff, u64::MAX, 1, 0x0010 << 48,
                0x7fef_ffff_ffff_ffff, 0x3ff0 << 48, (1 << 63) | 1,
            ]),
            1 => self.int(64),
            _ => self.next(),
        }
    }
    /// A small size, mostly tiny, sometimes around the boundaries of the encodings, up to `max`.
    pub fn size(&mut self, max: u64) -> usize {
        let v = match self.below(12) {
            0..=6 => self.below(4),
            7 | 8 => self.below(20),
            9 => {
                let b = *self.pick(&[64u64, 127, 128, 129, 255, 256, 257, 1024, 4096, 8192, 16383, 16384]);
                b.wrapping_add(self.below(5)).wrapping_sub(2)
            }
            10 if !dict().ints.is_empty() => {
                let v = *self.pick(&dict().ints);
                v.wrapping_add(self.below(3)).wrapping_sub(1)
            }
            _ => self.below(300),
        };
        if v > max {
            (v % (max + 1)) as usize
        } else {
            v as usize
        }
    }
    pub fn char(&mut self) -> char {
        loop {
            let v = match self.below(6) {
                0 | 1 => self.below(0x80),
                2 => self.below(0x800),
                3 => self.below(0x10000),
                4 => *self.pick(&[0u64, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xfeff]),
                _ => self.below(0x110000),
            };
            if let Some(c) = char::from_u32(v as u32) {
                return c;
            }
        }
    }
    /// A string of exactly `n` bytes if possible (never more, at most 3 less).
    pub fn string_of(&mut self, n: usize) -> String {
        let mut s = String::with_capacity(n + 4);
        let kind = self.below(4);
        while s.len() < n {
            let c = match kind {
                0 => (b'a' + self.below(26) as u8) as char,
                1 => self.char(),
                2 => *self.pick(&['a', 'é', '語', '🙂']),
                _ => *self.pick(&['\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}']),
            };
            if s.len() + c.len_utf8() <= n {
                s.push(c);
            } else {
                s.push((b'0' + self.below(10) as u8) as char);
            }
        }
        s
    }
    pub fn string(&mut self, max: u64) -> String {
        if self.one_in(8) && !dict().strings.is_empty() {
            return self.pick(&dict().strings).clone();
        }
        let n = self.size(max);
        self.string_of(n)
    }
    pub fn bytes_of(&mut self, n: usize) -> Vec<u8> {
        let kind = self.below(4);
        let b = self.next() as u8;
        (0..n)
            .map(|i| match kind {
                0 => self.next() as u8,
                1 => b,
                2 => i as u8,
                _ => *self.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0xc0]),
            })
            .collect()
    }
    pub fn bytes(&mut self, max: u64) -> Vec<u8> {
        let n = self.size(max);
        self.bytes_of(n)
    }
}
