//! Readers and writers that fail, stop short and interrupt as told.
use std::io::{Error, ErrorKind, Read, Result, Write};

/// How much each operation moves at most, and whether it is preceded by interruptions.
#[derive(Clone, Debug)]
pub struct Pattern {
    pub chunks: Vec<usize>,
    pub interrupts: Vec<bool>,
}

impl Pattern {
    pub fn arb(r: &mut crate::rng::Rng) -> Self {
        let n = 1 + r.below(4) as usize;
        let mut chunks: Vec<usize> = (0..n)
            .map(|_| match r.below(4) {
                0 => 1,
                1 => 2 + r.below(6) as usize,
                2 => 1 + r.size(5000),
                _ => usize::MAX,
            })
            .collect();
        if r.one_in(4) {
            chunks = vec![1];
        }
        let m = 1 + r.below(3) as usize;
        Pattern {
            chunks,
            interrupts: (0..m).map(|i| i + 1 < m && r.one_in(2)).collect(),
        }
    }
}

struct Steps {
    p: Pattern,
    c: usize,
    i: usize,
}

impl Steps {
    fn interrupt(&mut self) -> bool {
        self.i += 1;
        self.p.interrupts[(self.i - 1) % self.p.interrupts.len()]
    }
    fn chunk(&mut self, n: usize) -> usize {
        self.c += 1;
        self.p.chunks[(self.c - 1) % self.p.chunks.len()].min(n)
    }
}

pub const KINDS: [ErrorKind; 6] = [
    ErrorKind::BrokenPipe,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::Other,
    ErrorKind::InvalidData,
];

pub struct Sink {
    pub got: Vec<u8>,
    room: usize,
    /// What happens when there is no more room: an error of this kind, or `Ok(0)`.
    end: Option<ErrorKind>,
    s: Steps,
    pub refused: bool,
}

impl Sink {
    pub fn new(room: usize, end: Option<ErrorKind>, p: &Pattern) -> Self {
        Sink {
            got: vec![],
            room,
            end,
            s: Steps { p: p.clone(), c: 0, i: 0 },
            refused: false,
        }
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.s.interrupt() {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let left = self.room - self.got.len();
        if left == 0 {
            self.refused = true;
            return match self.end {
                Some(k) => Err(Error::from(k)),
                None => Ok(0),
            };
        }
        let n = self.s.chunk(b.len().min(left));
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

pub struct Source<'a> {
    data: &'a [u8],
    pub pos: usize,
    end: Option<ErrorKind>,
    s: Steps,
}

impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], end: Option<ErrorKind>, p: &Pattern) -> Self {
        Source {
            data,
            pos: 0,
            end,
            s: Steps { p: p.clone(), c: 0, i: 0 },
        }
    }
}

impl<'a> Read for Source<'a> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.s.interrupt() {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let left = self.data.len() - self.pos;
        if left == 0 {
            return match self.end {
                Some(k) => Err(Error::from(k)),
                None => Ok(0),
            };
        }
        let n = self.s.chunk(b.len().min(left));
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
