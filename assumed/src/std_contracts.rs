//! `LeBytes`, `min`, `char_to_string`, `first_char`, `copy_to_tail`, `read_part`, `prefix_mut` of verus/*.rs.
use std::io::Read;

/// The i-th byte of v from the least significant one, by arithmetic alone.
fn digit(v: u64, i: usize) -> u8 {
    let mut v = v;
    let mut k = 0;
    while k < i {
        v /= 256;
        k += 1;
    }
    (v % 256) as u8
}

macro_rules! le {
    ($name:ident, $t:ty, $n:literal) => {
        #[kani::proof]
        #[kani::unwind(10)]
        fn $name() {
            let v: $t = kani::any();
            let b = v.to_le_bytes();
            let mut i = 0;
            while i < $n {
                assert!(b[i] == digit(v as u64, i));
                i += 1;
            }
            // every array is the bytes of one value
            let b: [u8; $n] = kani::any();
            let w = <$t>::from_le_bytes(b);
            let mut i = 0;
            while i < $n {
                assert!(b[i] == digit(w as u64, i));
                i += 1;
            }
        }
    };
}
le!(assumed_std_le_u16, u16, 2);
le!(assumed_std_le_u32, u32, 4);
le!(assumed_std_le_u64, u64, 8);

#[kani::proof]
fn assumed_std_le_bytes_and_floats() {
    let v: u8 = kani::any();
    assert!(v.to_le_bytes() == [v] && u8::from_le_bytes([v]) == v);
    let w: i8 = kani::any();
    assert!(w.to_le_bytes() == [w as u8] && i8::from_le_bytes([v]) == v as i8);
    let b: u32 = kani::any();
    let f = f32::from_bits(b);
    assert!(f.to_bits() == b && f.to_le_bytes() == b.to_le_bytes());
    assert!(f32::from_le_bytes(b.to_le_bytes()).to_bits() == b);
    let b: u64 = kani::any();
    let f = f64::from_bits(b);
    assert!(f.to_bits() == b && f.to_le_bytes() == b.to_le_bytes());
    assert!(f64::from_le_bytes(b.to_le_bytes()).to_bits() == b);
}

#[kani::proof]
fn assumed_std_min() {
    let (a, b): (u64, u64) = (kani::any(), kani::any());
    assert!(std::cmp::min(a, b) == if a <= b { a } else { b });
    let (a, b): (usize, usize) = (kani::any(), kani::any());
    assert!(std::cmp::min(a, b) == if a <= b { a } else { b });
}

/// The text of a character is that character, and it is the first one of it.
#[kani::proof]
#[kani::unwind(6)]
fn assumed_std_char_to_string() {
    let c: char = kani::any();
    let s = c.to_string();
    let mut it = s.chars();
    assert!(it.next() == Some(c));
    assert!(it.next().is_none());
    let n = if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x1_0000 { 3 } else { 4 };
    assert!(s.len() == n);
}

macro_rules! buffers {
    ($name:ident, $n:literal) => {
        #[kani::proof]
        #[kani::unwind(12)]
        fn $name() {
            let old: [u8; $n] = kani::any();
            // copy_to_tail
            let src: [u8; $n - 1] = kani::any();
            let mut buf = old;
            buf[1..].copy_from_slice(&src);
            assert!(buf[0] == old[0]);
            let i: usize = kani::any();
            kani::assume(i < $n - 1);
            assert!(buf[i + 1] == src[i]);
            // read_part
            let data: [u8; $n + 1] = kani::any();
            let (len, from, to): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
            kani::assume(len <= $n + 1 && from <= to && to <= $n);
            let mut reader = &data[..len];
            let mut buf = old;
            let r = reader.read_exact(&mut buf[from..to]);
            assert!(r.is_ok() == (to - from <= len));
            if r.is_ok() {
                assert!(reader.len() == len - (to - from));
                let k: usize = kani::any();
                kani::assume(k < $n);
                assert!(buf[k] == if from <= k && k < to { data[k - from] } else { old[k] });
            }
            std::mem::forget(r);
        }
    };
}
buffers!(assumed_std_buffer_3, 3);
buffers!(assumed_std_buffer_5, 5);
buffers!(assumed_std_buffer_9, 9);
