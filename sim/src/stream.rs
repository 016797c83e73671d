//! Simulated byte streams: fragmentation, interrupts, hard faults, early ends.

use crate::alloc::Unmetered;
use crate::ctx::{hash_bytes, CrashToken, Ctx, K};
use binschema::error::{Error, ErrorKind};
use binschema::{CoderState, CoderStateAlloc, Schema};
use std::io::{self, Read, Write};

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum FK {
    Eof,
    Reset,
    TimedOut,
    WouldBlock,
    BrokenPipe,
    InvalidData,
    Other,
    EofError,
    NoSpace,
    WriteZero,
}

pub const READ_FKS: &[FK] = &[FK::Eof, FK::Reset, FK::TimedOut, FK::WouldBlock, FK::InvalidData, FK::Other, FK::EofError, FK::BrokenPipe];
pub const WRITE_FKS: &[FK] = &[FK::NoSpace, FK::BrokenPipe, FK::Reset, FK::WriteZero, FK::TimedOut, FK::WouldBlock, FK::InvalidData, FK::Other];

/// A hard stream fault at a byte offset.
#[derive(Copy, Clone, Debug)]
pub struct Fault {
    pub at: usize,
    pub kind: FK,
    pub sticky: bool,
    pub tag: u64,
}

impl Fault {
    fn text(&self) -> String {
        format!("sim-fault-{}", self.tag)
    }
    /// The error the stream returns, or None if it signals by returning Ok(0).
    pub fn error(&self) -> Option<io::Error> {
        use io::ErrorKind as E;
        Some(match self.kind {
            FK::Eof | FK::WriteZero => return None,
            FK::NoSpace => io::Error::from_raw_os_error(28),
            FK::Reset => io::Error::new(E::ConnectionReset, self.text()),
            FK::TimedOut => io::Error::new(E::TimedOut, self.text()),
            FK::WouldBlock => io::Error::from_raw_os_error(11),
            FK::BrokenPipe => io::Error::from_raw_os_error(32),
            FK::InvalidData => io::Error::new(E::InvalidData, self.text()),
            FK::Other => io::Error::new(E::Other, self.text()),
            FK::EofError => io::Error::new(E::UnexpectedEof, self.text()),
        })
    }
    fn count(&self) -> K {
        match self.kind {
            FK::Eof => K::EarlyEof,
            FK::WriteZero => K::WriteZero,
            FK::NoSpace => K::NoSpace,
            FK::Reset => K::HardReset,
            FK::TimedOut => K::HardTimeout,
            FK::WouldBlock => K::HardWouldBlock,
            FK::BrokenPipe => K::HardBrokenPipe,
            FK::InvalidData => K::HardInvalidData,
            FK::Other => K::HardOther,
            FK::EofError => K::HardEofError,
        }
    }
    /// Does an error reported by the library carry this fault?
    pub fn carried_by(&self, e: &Error) -> bool {
        let io = match io_cause(e) {
            Some(io) => io,
            None => return false,
        };
        match self.kind {
            FK::Eof => io.kind() == io::ErrorKind::UnexpectedEof,
            FK::WriteZero => io.kind() == io::ErrorKind::WriteZero,
            FK::NoSpace => io.raw_os_error() == Some(28),
            FK::WouldBlock => io.raw_os_error() == Some(11),
            FK::BrokenPipe => io.raw_os_error() == Some(32),
            _ => io.kind() == self.error().unwrap().kind() && io.to_string().contains(&self.text()),
        }
    }
}

/// The io::Error at the bottom of a library error, if any.
pub fn io_cause(e: &Error) -> Option<&io::Error> {
    let mut cur: Option<&(dyn std::error::Error + 'static)> = Some(e.inner());
    while let Some(c) = cur {
        if let Some(io) = c.downcast_ref::<io::Error>() {
            return Some(io);
        }
        cur = c.source();
    }
    None
}

/// The early end of the data is reported as an I/O error of this kind.
pub fn is_eof_error(e: &Error) -> bool {
    e.kind() == ErrorKind::Io && io_cause(e).map_or(false, |io| io.kind() == io::ErrorKind::UnexpectedEof)
}

/// How a stream splits and interrupts calls.
#[derive(Copy, Clone, Debug)]
pub struct Manner {
    /// 0 whole, 1 single bytes, 2 random small, 3 random
    pub frag: u8,
    /// interrupts per 8 calls
    pub eintr: u64,
    /// leave junk in the part of a read buffer that was not filled, as the contract of `Read` allows
    pub scribble: bool,
    /// whole unrelated messages coded within a call, per 8 calls
    pub nest: u64,
}

impl Manner {
    pub const CALM: Manner = Manner { frag: 0, eintr: 0, scribble: false, nest: 0 };
    pub fn draw(ctx: &Ctx) -> Self {
        let frag = ctx.draw(4) as u8;
        let eintr = *ctx.pick(&[0u64, 0, 1, 3, 5]);
        let scribble = ctx.chance(1, 3);
        Manner { frag, eintr, scribble, nest: 0 }
    }
    fn amount(&self, ctx: &Ctx, max: usize) -> usize {
        match self.frag {
            0 => max,
            1 => 1,
            2 => 1 + ctx.below(max.min(4)),
            _ => {
                if max > 4096 {
                    1 + ctx.below(max)
                } else {
                    max - ctx.below(max)
                }
            }
        }
    }
    /// Single bytes are too slow for large transfers.
    pub fn tame(mut self, total: usize) -> Self {
        if total > 20_000 && (self.frag == 1 || self.frag == 2) {
            self.frag = 3;
        }
        self
    }
}

fn scribble(buf: &mut [u8], salt: usize) {
    for (i, b) in buf.iter_mut().take(300).enumerate() {
        *b = 0xa5 ^ (i + salt) as u8;
    }
}

fn nest_schemas() -> &'static [Schema] {
    static S: std::sync::OnceLock<Vec<Schema>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        use binschema::schema;
        vec![
            schema!(str),
            schema!(bytes),
            schema!(struct { (a: i64), (b: option(recurse(2))), (c: seq(varlen)(char)) }),
            schema!(enum { Leaf(u128), Fork(tuple { (recurse(2)), (recurse(2)) }), Name(str) }),
            schema!(seq(varlen)(tuple { (str), (seq(3)(u16)), (f64) })),
            Schema::Enum((0..300).map(|i| binschema::EnumSchemaVariant { name: format!("v{}", i), inner: if i % 3 == 0 { Schema::Str } else { Schema::Unit } }).collect()),
        ]
    })
}

/// A whole message of its own, encoded and decoded within a stream call of another session.
fn nested(ctx: &Ctx, id: u64, alloc: &mut Option<CoderStateAlloc>) {
    let s = &nest_schemas()[ctx.below(nest_schemas().len())];
    let v = crate::gen::value_fuel(ctx, s, 8);
    let want = crate::model::encode(s, &v);
    ctx.count(K::Nested);
    ctx.ev(6, id, want.len() as u64, || format!("within this call of stream {}, a message of its own: {:?}", id, v));
    let mut st = CoderState::new(s, alloc.take().unwrap_or_default(), None);
    let mut out: Vec<u8> = vec![];
    let r = crate::paths::enc_all(ctx, crate::paths::enc_path(ctx), s, &v, &mut st, &mut out);
    assert!(r.is_ok() && out == want && st.is_finished(), "nested session: {:?} encoded as {:02x?} with {:?}, expected {:02x?}", v, out, r, want);
    let mut st = CoderState::new(s, st.into_alloc(), None);
    let mut d = &out[..];
    let p = crate::paths::dec_path(ctx);
    let g = crate::paths::dec_all(ctx, p, s, &mut st, &mut d);
    match &g {
        Ok(g) => assert!(g.as_ref().map_or(true, |g| crate::model::veq(g, &v)) && d.is_empty() && st.is_finished(), "nested session: {:?} read through {:?} as {:?}", v, p, g),
        Err(e) => panic!("nested session: {:?} read through {:?}: {}", v, p, e),
    }
    *alloc = Some(st.into_alloc());
}

pub struct SimReader {
    pub ctx: Ctx,
    pub id: u64,
    pub data: Vec<u8>,
    pub pos: usize,
    pub manner: Manner,
    pub fault: Option<Fault>,
    pub failed: bool,
    pub touched_after_fail: u64,
    pub eof_hits: u64,
    pub calls: u64,
    pub crash_at_call: Option<u64>,
    in_a_row: u32,
    nests: u32,
    nest_alloc: Option<CoderStateAlloc>,
}

impl SimReader {
    pub fn new(ctx: &Ctx, id: u64, data: Vec<u8>, manner: Manner) -> Self {
        let manner = manner.tame(data.len());
        SimReader { ctx: ctx.clone(), id, data, pos: 0, manner, fault: None, failed: false, touched_after_fail: 0, eof_hits: 0, calls: 0, crash_at_call: None, in_a_row: 0, nests: 0, nest_alloc: None }
    }
    pub fn rest(&self) -> &[u8] {
        &self.data[self.pos..]
    }
    /// The bytes that will be delivered before a fault or the end.
    pub fn available(&self) -> &[u8] {
        let end = match self.fault {
            Some(f) if !self.failed => f.at.min(self.data.len()),
            _ => self.data.len(),
        };
        &self.data[self.pos..end.max(self.pos)]
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _u = Unmetered::new();
        self.ctx.step();
        self.calls += 1;
        let id = self.id;
        if self.manner.scribble {
            scribble(buf, self.calls as usize);
        }
        if self.crash_at_call == Some(self.calls) {
            self.ctx.count(K::CrashInCall);
            self.ctx.ev(1, id, self.pos as u64, || format!("r{} CRASH inside read at byte {}", id, self.pos));
            std::panic::panic_any(CrashToken);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.failed {
            self.touched_after_fail += 1;
            let f = self.fault.unwrap();
            if f.sticky {
                return match f.error() {
                    Some(e) => Err(e),
                    None => Ok(0),
                };
            }
        }
        if self.manner.nest > 0 && self.nests < 5 && self.ctx.chance(self.manner.nest, 8) {
            self.nests += 1;
            nested(&self.ctx, id, &mut self.nest_alloc);
        }
        if self.manner.eintr > 0 && self.in_a_row < 4 && self.ctx.chance(self.manner.eintr, 8) {
            self.in_a_row += 1;
            self.ctx.count(K::EintrRead);
            self.ctx.ev(2, id, self.pos as u64, || format!("r{} EINTR at byte {}", id, self.pos));
            return Err(if self.in_a_row & 1 == 1 { io::Error::from_raw_os_error(4) } else { io::ErrorKind::Interrupted.into() });
        }
        self.in_a_row = 0;
        let mut max = buf.len().min(self.data.len() - self.pos);
        if let (Some(f), false) = (self.fault, self.failed) {
            if f.at <= self.pos {
                self.failed = true;
                self.ctx.count(f.count());
                self.ctx.ev(3, id, self.pos as u64, || format!("r{} FAULT {:?} at byte {}", id, f, self.pos));
                return match f.error() {
                    Some(e) => Err(e),
                    None => Ok(0),
                };
            }
            max = max.min(f.at - self.pos);
        }
        if max == 0 {
            self.eof_hits += 1;
            self.ctx.ev(4, id, self.pos as u64, || format!("r{} end of data at byte {}", id, self.pos));
            return Ok(0);
        }
        let n = self.manner.amount(&self.ctx, max);
        if n < buf.len() {
            self.ctx.count(K::ShortRead);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.ctx.ev(5, id, (n as u64) << 32 | buf.len() as u64, || format!("r{} read {} of {} wanted at byte {}", id, n, buf.len(), self.pos));
        self.pos += n;
        self.ctx.moved(n);
        Ok(n)
    }
}

pub struct SimWriter {
    pub ctx: Ctx,
    pub id: u64,
    pub sink: Vec<u8>,
    pub manner: Manner,
    pub fault: Option<Fault>,
    pub failed: bool,
    pub touched_after_fail: u64,
    pub calls: u64,
    pub crash_at_call: Option<u64>,
    /// If set, every accepted byte must continue this.
    pub expect: Option<Vec<u8>>,
    pub diverged: Option<usize>,
    in_a_row: u32,
    nests: u32,
    nest_alloc: Option<CoderStateAlloc>,
}

impl SimWriter {
    pub fn new(ctx: &Ctx, id: u64, manner: Manner) -> Self {
        SimWriter { ctx: ctx.clone(), id, sink: Vec::new(), manner, fault: None, failed: false, touched_after_fail: 0, calls: 0, crash_at_call: None, expect: None, diverged: None, in_a_row: 0, nests: 0, nest_alloc: None }
    }
    pub fn room(&self) -> usize {
        match self.fault {
            Some(f) if !self.failed => f.at.saturating_sub(self.sink.len()),
            _ => usize::MAX,
        }
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _u = Unmetered::new();
        self.ctx.step();
        self.calls += 1;
        let id = self.id;
        if self.crash_at_call == Some(self.calls) {
            self.ctx.count(K::CrashInCall);
            self.ctx.ev(11, id, self.sink.len() as u64, || format!("w{} CRASH inside write at byte {}", id, self.sink.len()));
            std::panic::panic_any(CrashToken);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.failed {
            self.touched_after_fail += 1;
            let f = self.fault.unwrap();
            if f.sticky {
                return match f.error() {
                    Some(e) => Err(e),
                    None => Ok(0),
                };
            }
        }
        if self.manner.nest > 0 && self.nests < 5 && self.ctx.chance(self.manner.nest, 8) {
            self.nests += 1;
            nested(&self.ctx, id, &mut self.nest_alloc);
        }
        if self.manner.eintr > 0 && self.in_a_row < 4 && self.ctx.chance(self.manner.eintr, 8) {
            self.in_a_row += 1;
            self.ctx.count(K::EintrWrite);
            self.ctx.ev(12, id, self.sink.len() as u64, || format!("w{} EINTR at byte {}", id, self.sink.len()));
            return Err(if self.in_a_row & 1 == 1 { io::Error::from_raw_os_error(4) } else { io::ErrorKind::Interrupted.into() });
        }
        self.in_a_row = 0;
        let mut max = buf.len();
        if let (Some(f), false) = (self.fault, self.failed) {
            if f.at <= self.sink.len() {
                self.failed = true;
                self.ctx.count(f.count());
                self.ctx.ev(13, id, self.sink.len() as u64, || format!("w{} FAULT {:?} at byte {}", id, f, self.sink.len()));
                return match f.error() {
                    Some(e) => Err(e),
                    None => Ok(0),
                };
            }
            max = max.min(f.at - self.sink.len());
        }
        let manner = self.manner.tame(buf.len().max(self.sink.len()));
        let n = manner.amount(&self.ctx, max);
        if n < buf.len() {
            self.ctx.count(K::ShortWrite);
        }
        let at = self.sink.len();
        self.sink.extend_from_slice(&buf[..n]);
        self.ctx.moved(n);
        if let (Some(x), None) = (&self.expect, self.diverged) {
            if x.get(at..at + n) != Some(&buf[..n]) {
                self.diverged = Some(at);
            }
        }
        self.ctx.ev(15, id ^ hash_bytes(&buf[..n]), (n as u64) << 32 | buf.len() as u64, || format!("w{} wrote {} of {} offered at byte {}: {:02x?}", id, n, buf.len(), at, &buf[..n.min(24)]));
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Damage bytes in transit. Returns false if nothing changed.
pub fn damage(ctx: &Ctx, b: &mut Vec<u8>) -> bool {
    let orig = b.clone();
    let n = 1 + ctx.below(3);
    for _ in 0..n {
        let kind = ctx.draw(10);
        let at = if b.is_empty() { 0 } else { if ctx.chance(1, 2) { ctx.below(b.len().min(12)) } else { ctx.below(b.len()) } };
        let (k, what) = match kind {
            0 => {
                if b.is_empty() { continue; }
                b[at] ^= 1 << ctx.below(8);
                (K::Flip, "flip")
            }
            1 => {
                if b.is_empty() { continue; }
                b[at] = *ctx.pick(&[0u8, 1, 2, 3, 0x7f, 0x80, 0x81, 0xc0, 0xff, 0xfe, 0x40]);
                (K::SetByte, "set")
            }
            2 => {
                if b.is_empty() { continue; }
                let l = 1 + ctx.below((b.len() - at).min(8));
                b.drain(at..at + l);
                (K::DropBytes, "drop")
            }
            3 => {
                if b.is_empty() { continue; }
                let l = 1 + ctx.below((b.len() - at).min(16));
                let c: Vec<u8> = b[at..at + l].to_vec();
                let to = at + l;
                b.splice(to..to, c);
                (K::DupBytes, "dup")
            }
            4 => {
                if b.len() < 2 { continue; }
                let m = at.max(1).min(b.len() - 1);
                let l = 1 + ctx.below(m.min(b.len() - m).min(8));
                for i in 0..l {
                    b.swap(m - l + i, m + i);
                }
                (K::SwapBytes, "swap")
            }
            5 => {
                let l = 1 + ctx.below(8);
                let c: Vec<u8> = (0..l).map(|_| ctx.draw(256) as u8).collect();
                b.splice(at..at, c);
                (K::InsertBytes, "insert")
            }
            6 => {
                if b.is_empty() { continue; }
                b.truncate(at);
                (K::CutBytes, "cut")
            }
            7 | 8 => {
                // an extreme variable-length integer over whatever is there
                let mut c = hostile_varint(ctx);
                let l = if b.len() > at { ctx.below((b.len() - at).min(3) + 1) } else { 0 };
                if ctx.chance(1, 8) { c.pop(); }
                b.splice(at..at + l, c);
                (K::HostileLen, "hostile varint")
            }
            _ => {
                let l = ctx.below(40);
                *b = (0..l).map(|_| if ctx.chance(1, 3) { ctx.draw(4) as u8 } else { ctx.draw(256) as u8 }).collect();
                (K::RandomBytes, "all random")
            }
        };
        ctx.count(k);
        ctx.ev(30, at as u64, kind, || format!("DAMAGE {} at byte {}", what, at));
    }
    *b != orig
}

/// Variable-length encodings of numbers around every limit, and malformed ones.
pub fn hostile_varint(ctx: &Ctx) -> Vec<u8> {
    match ctx.draw(6) {
        0 => vec![0xff; 1 + ctx.below(24)],
        1 => {
            let mut v = vec![0x80; ctx.below(24)];
            v.push(ctx.draw(128) as u8);
            v
        }
        _ => {
            let k = ctx.range(5, 127);
            let mut n: u128 = 1 << k;
            match ctx.draw(3) {
                0 => {}
                1 => n -= 1,
                _ => n += ctx.draw(1000) as u128,
            }
            let mut v = Vec::new();
            loop {
                let b = (n & 0x7f) as u8;
                n >>= 7;
                if n == 0 {
                    v.push(b);
                    break;
                }
                v.push(b | 0x80);
            }
            v
        }
    }
}

pub fn draw_fault(ctx: &Ctx, kinds: &[FK], at: usize) -> Fault {
    Fault { at, kind: *ctx.pick(kinds), sticky: ctx.chance(1, 2), tag: ctx.draw(1 << 20) }
}
