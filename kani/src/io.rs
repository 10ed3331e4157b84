//! Readers and writers that the harnesses plug into the real serializer and deserializer.
//! `write_all` and `read_exact` are given by their contract (the standard library's default
//! implementations of them are trusted); `write` and `read` move an arbitrary part of what they
//! are asked for, so code that takes a short operation for a complete one is caught.
use std::io::{Error, ErrorKind, Read, Result, Write};

/// Accepts `room` bytes, then fails.
pub struct Sink<const N: usize> {
    pub buf: [u8; N],
    pub len: usize,
    pub room: usize,
}

impl<const N: usize> Sink<N> {
    pub fn new(room: usize) -> Self {
        Self {
            buf: [0; N],
            len: 0,
            room,
        }
    }

    fn take(&mut self, buf: &[u8], n: usize) {
        assert!(self.len + n <= N, "more bytes written than the format allows");
        let mut i = 0;
        while i < n {
            self.buf[self.len + i] = buf[i];
            i += 1;
        }
        self.len += n;
        self.room -= n;
    }
}

impl<const N: usize> Write for Sink<N> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if buf.is_empty() || self.room == 0 {
            return Ok(0);
        }
        let n: usize = kani::any();
        kani::assume(n >= 1 && n <= buf.len() && n <= self.room);
        self.take(buf, n);
        Ok(n)
    }

    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
        if buf.len() > self.room {
            let room = self.room;
            self.take(buf, room);
            return Err(Error::from(ErrorKind::BrokenPipe));
        }
        self.take(buf, buf.len());
        Ok(())
    }

    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

/// Delivers `len` bytes of `buf`, then ends.
pub struct Source<const N: usize> {
    pub buf: [u8; N],
    pub pos: usize,
    pub len: usize,
}

impl<const N: usize> Source<N> {
    fn give(&mut self, buf: &mut [u8], n: usize) {
        let mut i = 0;
        while i < n {
            buf[i] = self.buf[self.pos + i];
            i += 1;
        }
        self.pos += n;
    }
}

impl<const N: usize> Read for Source<N> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let left = self.len - self.pos;
        if buf.is_empty() || left == 0 {
            return Ok(0);
        }
        let n: usize = kani::any();
        kani::assume(n >= 1 && n <= buf.len() && n <= left);
        self.give(buf, n);
        Ok(n)
    }

    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        let left = self.len - self.pos;
        if buf.len() > left {
            let n: usize = kani::any();
            kani::assume(n <= left);
            self.give(buf, n);
            self.pos = self.len;
            return Err(Error::from(ErrorKind::UnexpectedEof));
        }
        self.give(buf, buf.len());
        Ok(())
    }
}
