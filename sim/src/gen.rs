//! Generators: schemas (recursive, mutually recursive, wide, illegal) and conforming values.

use crate::ctx::{mix, Ctx, K};
use crate::model::{resolve, scalar_type, Env};
use binschema::value::{EnumValue, ScalarValue, StructValueField, Value};
use binschema::{EnumSchemaVariant, ScalarType, Schema, SeqSchema, StructSchemaField};

pub const NAMES: &[&str] = &["a", "b", "value", "next", "", "x y", "x\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}", "\u{e9}\u{1f600}", "Some", "type", "begin", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"];

pub const SCALARS: &[ScalarType] = &[
    ScalarType::U8, ScalarType::U16, ScalarType::U32, ScalarType::U64, ScalarType::U128,
    ScalarType::I8, ScalarType::I16, ScalarType::I32, ScalarType::I64, ScalarType::I128,
    ScalarType::F32, ScalarType::F64, ScalarType::Char, ScalarType::Bool,
];

#[derive(Clone, Copy)]
pub struct Opts {
    pub depth: usize,
    /// every sequence element occupies at least one byte
    pub wide_elems: bool,
    pub big_enums: bool,
    pub empty_enums: bool,
    pub recursion: bool,
    /// towers of over a hundred levels, in which a refusal is costly to word
    pub deep: bool,
}

pub const PLAIN: Opts = Opts { depth: 4, wide_elems: false, big_enums: true, empty_enums: true, recursion: true, deep: false };
pub const SAFE: Opts = Opts { depth: 4, wide_elems: true, big_enums: true, empty_enums: true, recursion: true, deep: false };

struct Anc {
    /// the edge being generated below this ancestor can be avoided by a value
    escape: bool,
}

struct G<'c> {
    ctx: &'c Ctx,
    o: Opts,
    /// swarm: kinds enabled in this schema
    mask: u64,
    rec_bias: u64,
    nodes: usize,
    mult: usize,
    anc: Vec<Anc>,
}

/// A legal schema that has at least one value.
pub fn schema(ctx: &Ctx, o: Opts) -> Schema {
    let mask = if ctx.chance(1, 3) { u64::MAX } else { ctx.draw(1 << 12) | 1 << ctx.draw(12) };
    let rec_bias = if o.recursion { ctx.draw(4) } else { 0 };
    let mut g = G { ctx, o, mask, rec_bias, nodes: 0, mult: 1, anc: vec![] };
    let d = ctx.range(0, o.depth);
    let mut s = g.node(d);
    if ctx.chance(1, if o.deep { 3 } else { 300 }) && g.nodes <= 12 {
        // far down (what an error has to say about its place grows with the cube of the depth)
        ctx.count(K::PTower);
        let n = match g.nodes {
            0..=3 if o.deep => *ctx.pick(&[40usize, 130, 140]),
            0..=3 => *ctx.pick(&[12usize, 20, 40, 66, 10 + ctx.below(60)]),
            _ => *ctx.pick(&[12usize, 16, 20, 30, 8 + ctx.below(24)]),
        };
        let kind = *ctx.pick(&[1u64, 2, 4, 5, 0, 6]);
        let salt = ctx.draw(1 << 16);
        for i in 0..n {
            s = layer(if kind == 6 { *[1u64, 2, 4, 5].get(mix(salt ^ i as u64) as usize % 4).unwrap() } else { kind }, s, Value::Unit).0;
        }
    }
    if o.wide_elems {
        widen(&mut s);
    }
    probe(ctx, &s);
    s
}

fn probe(ctx: &Ctx, s: &Schema) {
    walk(s, 0, &mut |s, d| match s {
        Schema::Recurse(n) => {
            if *n >= 3 {
                ctx.count(K::PRecDepth);
            }
            let _ = d;
        }
        Schema::Enum(v) => {
            if v.len() > 65536 {
                ctx.count(K::PHugeEnum);
            }
            if v.len() > 256 {
                ctx.count(K::PBigEnum);
            }
        }
        _ => {}
    });
}

/// Visit every node with its depth.
pub fn walk(s: &Schema, d: usize, f: &mut dyn FnMut(&Schema, usize)) {
    f(s, d);
    match s {
        Schema::Option(i) => walk(i, d + 1, f),
        Schema::Seq(q) => walk(&q.inner, d + 1, f),
        Schema::Tuple(ss) => ss.iter().for_each(|s| walk(s, d + 1, f)),
        Schema::Struct(ss) => ss.iter().for_each(|s| walk(&s.inner, d + 1, f)),
        Schema::Enum(ss) => ss.iter().for_each(|s| walk(&s.inner, d + 1, f)),
        _ => {}
    }
}

pub fn count_nodes(s: &Schema) -> usize {
    let mut n = 0;
    walk(s, 0, &mut |_, _| n += 1);
    n
}

/// Visit every node mutably, children first.
pub fn walk_mut(s: &mut Schema, d: usize, f: &mut dyn FnMut(&mut Schema, usize)) {
    match s {
        Schema::Option(i) => walk_mut(i, d + 1, f),
        Schema::Seq(q) => walk_mut(&mut q.inner, d + 1, f),
        Schema::Tuple(ss) => ss.iter_mut().for_each(|s| walk_mut(s, d + 1, f)),
        Schema::Struct(ss) => ss.iter_mut().for_each(|s| walk_mut(&mut s.inner, d + 1, f)),
        Schema::Enum(ss) => ss.iter_mut().for_each(|s| walk_mut(&mut s.inner, d + 1, f)),
        _ => {}
    }
    f(s, d);
}

/// Give every sequence elements of at least one byte.
fn widen(s: &mut Schema) {
    fn look(s: &Schema, env: Option<&Env>, out: &mut Vec<bool>) {
        let here = Env { schema: s, up: env };
        let e = Some(&here);
        match s {
            Schema::Option(i) => look(i, e, out),
            Schema::Seq(q) => {
                look(&q.inner, e, out);
                out.push(width_in(&q.inner, e) == 0);
            }
            Schema::Tuple(ss) => ss.iter().for_each(|s| look(s, e, out)),
            Schema::Struct(ss) => ss.iter().for_each(|s| look(&s.inner, e, out)),
            Schema::Enum(ss) => ss.iter().for_each(|s| look(&s.inner, e, out)),
            _ => {}
        }
    }
    let mut narrow = vec![];
    look(s, None, &mut narrow);
    let mut i = 0;
    walk_mut(s, 0, &mut |s, _| {
        if let Schema::Seq(q) = s {
            if narrow[i] {
                q.inner = Box::new(Schema::Scalar(ScalarType::U8));
            }
            i += 1;
        }
    });
}

/// `min_width`, looking through one recursion reference.
fn width_in(s: &Schema, env: Option<&Env>) -> usize {
    match resolve(s, env) {
        Some((t, _)) => min_width(t),
        None => 1,
    }
}

/// A lower bound on the bytes of any value.
pub fn min_width(s: &Schema) -> usize {
    match s {
        Schema::Scalar(t) => match t {
            ScalarType::U16 | ScalarType::I16 => 2,
            ScalarType::F32 => 4,
            ScalarType::F64 => 8,
            _ => 1,
        },
        Schema::Str | Schema::Bytes | Schema::Option(_) => 1,
        Schema::Unit | Schema::Recurse(_) => 0,
        Schema::Seq(SeqSchema { len: None, .. }) => 1,
        Schema::Seq(SeqSchema { len: Some(n), inner }) => n.saturating_mul(min_width(inner)),
        Schema::Tuple(ss) => ss.iter().map(min_width).fold(0, usize::saturating_add),
        Schema::Struct(ss) => ss.iter().map(|f| min_width(&f.inner)).fold(0, usize::saturating_add),
        Schema::Enum(ss) => {
            if ss.len() >= 2 {
                1
            } else {
                ss.iter().map(|v| min_width(&v.inner)).min().unwrap_or(1)
            }
        }
    }
}

/// Whole-value decoding of any bytes terminates without unbounded work or nesting per byte: every
/// recursion consumes input and so does every sequence element.
pub fn tame(s: &Schema) -> bool {
    fn go(s: &Schema, env: Option<&Env>, path: &mut Vec<bool>, mult: u128) -> bool {
        let here = Env { schema: s, up: env };
        let e = Some(&here);
        let mut sub = |i: &Schema, consumes: bool, mult: u128| {
            path.push(consumes);
            let r = go(i, e, path, mult);
            path.pop();
            r
        };
        match s {
            Schema::Recurse(n) => {
                // illegal references stop; legal ones must consume on the way
                *n == 0 || *n > path.len() || path[path.len() - n..].iter().any(|c| *c)
            }
            Schema::Option(i) => sub(i, true, mult),
            Schema::Seq(SeqSchema { len: None, inner }) => width_in(inner, e) > 0 && sub(inner, true, mult),
            Schema::Seq(SeqSchema { len: Some(n), inner }) => {
                let wide = width_in(inner, e) > 0;
                let m = if wide { mult } else { mult.saturating_mul((*n).max(1) as u128) };
                m <= 4096 && sub(inner, false, m)
            }
            Schema::Tuple(ss) => ss.iter().all(|s| sub(s, false, mult)),
            Schema::Struct(ss) => ss.iter().all(|s| sub(&s.inner, false, mult)),
            Schema::Enum(ss) => ss.iter().all(|s| sub(&s.inner, ss.len() > 1, mult)),
            _ => true,
        }
    }
    go(s, None, &mut Vec::new(), 1)
}

/// Sizes next to which a limit or a change of method is likely to lie.
const MIDDLING: &[usize] = &[8, 16, 17, 9, 10, 12, 15, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129];

fn middling(ctx: &Ctx) -> usize {
    if ctx.chance(1, 3) {
        ctx.range(6, 140)
    } else {
        *ctx.pick(MIDDLING)
    }
}

/// Long, and often alike but for one character.
fn long_name(ctx: &Ctx) -> String {
    let n = if ctx.chance(1, 6) { *ctx.pick(&[255usize, 256, 257, 512, 1000]) } else { middling(ctx) };
    let mut s = "n".repeat(n);
    let at = *ctx.pick(&[n - 1, n / 2, 0]);
    let c = *ctx.pick(&["n", "o", "p", "N", " ", "0"]);
    s.replace_range(at..at + 1, c);
    s
}

impl<'c> G<'c> {
    fn name(&mut self) -> String {
        let c = self.ctx;
        if c.chance(1, 12) {
            long_name(c)
        } else if c.chance(1, 3) {
            (*c.pick(NAMES)).to_string()
        } else {
            format!("f{}", self.nodes)
        }
    }
    fn width(&mut self, usual: &[usize]) -> usize {
        let c = self.ctx;
        if self.nodes < 30 && self.mult <= 3 && c.chance(1, 20) {
            c.count(K::PMiddling);
            return middling(c);
        }
        *c.pick(usual)
    }
    /// What is side by side: if there is much of it, mostly alike.
    fn row(&mut self, n: usize, d: usize) -> Vec<Schema> {
        if n <= 6 {
            return (0..n).map(|_| self.under(false, d - 1)).collect();
        }
        let like = match self.ctx.draw(4) {
            0 => Schema::Option(Box::new(self.leaf())),
            1 => Schema::Seq(SeqSchema { len: None, inner: Box::new(self.leaf()) }),
            2 => Schema::Scalar(ScalarType::U8),
            _ => self.leaf(),
        };
        (0..n)
            .map(|_| match self.ctx.draw(8) {
                0 => self.under(false, 0),
                1 if self.nodes < 40 => self.under(false, d - 1),
                _ => like.clone(),
            })
            .collect()
    }
    fn under(&mut self, escape: bool, d: usize) -> Schema {
        self.anc.push(Anc { escape });
        let s = self.node(d);
        self.anc.pop();
        s
    }
    fn leaf(&mut self) -> Schema {
        let c = self.ctx;
        match c.draw(12) {
            0 => Schema::Unit,
            1 => Schema::Str,
            2 => Schema::Bytes,
            3 => {
                if self.o.empty_enums && c.chance(1, 4) {
                    Schema::Option(Box::new(Schema::Enum(vec![])))
                } else {
                    Schema::Scalar(ScalarType::U8)
                }
            }
            _ => Schema::Scalar(*c.pick(SCALARS)),
        }
    }
    /// Levels a reference placed here may have.
    fn rec_levels(&self) -> Vec<usize> {
        let mut v = vec![];
        let mut esc = false;
        for (i, a) in self.anc.iter().rev().enumerate() {
            esc |= a.escape;
            if esc {
                v.push(i + 1);
            }
        }
        v
    }
    fn node(&mut self, d: usize) -> Schema {
        let c = self.ctx;
        self.nodes += 1;
        if self.rec_bias > 0 && c.chance(self.rec_bias, 8) {
            let l = self.rec_levels();
            if !l.is_empty() {
                return Schema::Recurse(*c.pick(&l));
            }
        }
        if d == 0 || self.nodes > 60 {
            return self.leaf();
        }
        let mut kind = c.draw(12);
        for _ in 0..12 {
            if self.mask >> kind & 1 == 1 {
                break;
            }
            kind = (kind + 1) % 12;
        }
        match kind {
            0 | 1 => self.leaf(),
            2 | 3 => Schema::Option(Box::new(self.under(true, d - 1))),
            4 | 5 => Schema::Seq(SeqSchema { len: None, inner: Box::new(self.under(true, d - 1)) }),
            6 => {
                let mut len = if c.chance(1, 8) { middling(c) } else { *c.pick(&[2usize, 1, 3, 0, 7, 130]) };
                if self.mult * len.max(1) > 260 {
                    len = 1;
                }
                let m = self.mult;
                self.mult *= len.max(1);
                let inner = Box::new(self.under(false, d - 1));
                self.mult = m;
                Schema::Seq(SeqSchema { len: Some(len), inner })
            }
            7 | 8 => {
                let n = self.width(&[2, 1, 0, 3, 5]);
                Schema::Tuple(self.row(n, d))
            }
            9 => {
                let n = self.width(&[2, 1, 0, 3, 6]);
                let row = self.row(n, d);
                Schema::Struct(row.into_iter().enumerate().map(|(i, inner)| StructSchemaField { name: if n > 6 && i > 6 { format!("f{}", i) } else { self.name() }, inner }).collect())
            }
            _ => {
                let mut n = self.width(&[2, 1, 3, 4, 9]);
                if self.o.big_enums && c.chance(1, 8) {
                    n = *c.pick(&[255usize, 256, 257, 258, 300]);
                    if c.chance(1, 24) {
                        n = *c.pick(&[65535usize, 65536, 65537]);
                    }
                }
                let small = n.min(9);
                let mut v = Vec::with_capacity(n);
                for i in 0..small {
                    let name = if n > 9 { format!("v{}", i) } else { self.name() };
                    v.push(EnumSchemaVariant { name, inner: self.under(i > 0, d - 1) });
                }
                for i in small..n {
                    let inner = match i % 7 {
                        0 => Schema::Scalar(ScalarType::U16),
                        1 => Schema::Str,
                        _ => Schema::Unit,
                    };
                    v.push(EnumSchemaVariant { name: format!("v{}", i), inner });
                }
                if n > 9 && c.chance(1, 2) {
                    let last = v.len() - 1;
                    v.swap(small - 1, last);
                }
                Schema::Enum(v)
            }
        }
    }
}

/// Replace drawn leaves by illegal references. Returns false if nothing was planted.
pub fn plant_illegal(ctx: &Ctx, s: &mut Schema) -> bool {
    let mut leaves = 0;
    walk(s, 0, &mut |s, _| {
        if !matches!(s, Schema::Option(_) | Schema::Seq(_) | Schema::Tuple(_) | Schema::Struct(_) | Schema::Enum(_)) {
            leaves += 1
        }
    });
    if leaves == 0 {
        return false;
    }
    let n = 1 + ctx.below(2.min(leaves));
    for _ in 0..n {
        let at = ctx.below(leaves.min(200));
        let beyond = *ctx.pick(&[0usize, 1, 2, 3, 10, usize::MAX]);
        // or a number which would be within bounds if cut to fewer bits
        let far = match ctx.chance(1, 5) {
            true => (1usize << *ctx.pick(&[8, 16, 31, 32, 53, 63])) + ctx.below(4),
            false => 0,
        };
        let mut i = 0;
        walk_mut(s, 0, &mut |s, d| {
            if !matches!(s, Schema::Option(_) | Schema::Seq(_) | Schema::Tuple(_) | Schema::Struct(_) | Schema::Enum(_)) {
                if i == at {
                    let n = if beyond == 0 { 0 } else { d.saturating_add(beyond) };
                    *s = Schema::Recurse(if far > d { far } else { n });
                }
                i += 1;
            }
        });
    }
    ctx.count(K::IllegalRef);
    true
}

// ---- values ----

pub fn scalar(ctx: &Ctx, t: ScalarType) -> ScalarValue {
    use ScalarType as T;
    use ScalarValue as V;
    // a magnitude near a power of two, or anything
    fn mag(ctx: &Ctx, bits: u32) -> u128 {
        let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        match ctx.draw(5) {
            0 => ctx.draw(3) as u128,
            1 => {
                let k = ctx.draw(bits as u64 + 1) as u32;
                let p = if k >= bits { max } else { 1u128 << k };
                match ctx.draw(3) {
                    0 => p,
                    1 => p.wrapping_sub(1),
                    _ => p.wrapping_add(1) & max,
                }
            }
            2 => max - ctx.draw(2) as u128,
            3 => {
                // around a multiple of seven bits, with or without the sign bit
                let k = (7 * ctx.draw(19) as u32 + ctx.draw(2) as u32 * 6).min(bits - 1);
                (1u128 << k).wrapping_sub(ctx.draw(2) as u128) & max
            }
            _ => ctx.bits128() & max,
        }
    }
    macro_rules! signed {
        ($v:ident, $t:ty, $b:expr) => {{
            let m = mag(ctx, $b - 1) as $t;
            V::$v(if ctx.chance(1, 2) { !m } else { m })
        }};
    }
    let v = match t {
        T::U8 => V::U8(mag(ctx, 8) as u8),
        T::U16 => V::U16(mag(ctx, 16) as u16),
        T::U32 => V::U32(mag(ctx, 32) as u32),
        T::U64 => V::U64(mag(ctx, 64) as u64),
        T::U128 => V::U128(mag(ctx, 128)),
        T::I8 => signed!(I8, i8, 8),
        T::I16 => signed!(I16, i16, 16),
        T::I32 => signed!(I32, i32, 32),
        T::I64 => signed!(I64, i64, 64),
        T::I128 => signed!(I128, i128, 128),
        T::F32 => V::F32(match ctx.draw(4) {
            0 => *ctx.pick(&[0.0, -0.0, 1.0, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, f32::MAX]),
            1 => f32::from_bits(0x7f80_0001 | (ctx.bits() as u32 & 0x807f_ffff)),
            _ => f32::from_bits(ctx.bits() as u32),
        }),
        T::F64 => V::F64(match ctx.draw(4) {
            0 => *ctx.pick(&[0.0, -0.0, 1.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX]),
            1 => f64::from_bits(0x7ff0_0000_0000_0001 | (ctx.bits() & 0x800f_ffff_ffff_ffff)),
            _ => f64::from_bits(ctx.bits()),
        }),
        T::Char => V::Char(match ctx.draw(3) {
            0 => (b'a' + ctx.draw(26) as u8) as char,
            1 => *ctx.pick(&['\0', '\u{7f}', '\u{80}', '\u{3fff}', '\u{4000}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}']),
            _ => char::from_u32(ctx.draw(0x110000) as u32).unwrap_or('\u{fffd}'),
        }),
        T::Bool => V::Bool(ctx.chance(1, 2)),
    };
    if matches!(v, V::U128(n) if n >> 63 != 0) || matches!(v, V::I128(n) if !(-(1i128 << 62)..1i128 << 62).contains(&n)) {
        ctx.count(K::PWideVarint);
    }
    debug_assert!(scalar_type(v) == t);
    v
}

fn blob_len(ctx: &Ctx, fuel: i64) -> usize {
    if fuel <= 0 {
        return ctx.below(3);
    }
    match ctx.draw(16) {
        0 => 0,
        1..=9 => ctx.below(12),
        10 => *ctx.pick(&[63usize, 64, 127, 128, 129, 255, 256, 257, middling(ctx), 512, 511, 513]),
        11 | 12 => ctx.below(300),
        13 => *ctx.pick(&[16383usize, 16384, 4095, 4096, 4097, 8192, 1023, 1024, 1025, 2047, 2048, 2049, 8191, 8193, 16385, 32767, 32768, 32769, 300 + ctx.below(40_000)]),
        _ => {
            if ctx.chance(1, 12) {
                *ctx.pick(&[65535usize, 65536, 65537, 131072, 131073, 200000])
            } else {
                ctx.below(30)
            }
        }
    }
}

pub fn bytes(ctx: &Ctx, fuel: &mut i64) -> Vec<u8> {
    let n = blob_len(ctx, *fuel);
    *fuel -= (n / 64) as i64;
    if n > 60000 {
        ctx.count(K::PLongStr);
    }
    if n == 0 {
        return vec![];
    }
    let s = ctx.draw(1 << 16);
    (0..n).map(|i| mix(s ^ (i as u64) << 17) as u8).collect()
}

pub fn string(ctx: &Ctx, fuel: &mut i64) -> String {
    let n = blob_len(ctx, *fuel);
    *fuel -= (n / 64) as i64;
    if n > 60000 {
        ctx.count(K::PLongStr);
    }
    if n == 0 {
        return String::new();
    }
    let ascii = ctx.chance(2, 3);
    let s = ctx.draw(1 << 16);
    let mut r = String::with_capacity(n);
    let mut i = 0u64;
    while r.len() < n {
        let h = mix(s ^ i << 17);
        i += 1;
        let ch = if ascii { (32 + (h % 95) as u8) as char } else { char::from_u32((h >> 8) as u32 % [0x80, 0x800, 0x10000, 0x110000][(h & 3) as usize]).unwrap_or('\u{d7ff}') };
        if r.len() + ch.len_utf8() > n {
            r.push('z');
        } else {
            r.push(ch);
        }
    }
    r
}

fn uninhabited(s: &Schema) -> bool {
    matches!(s, Schema::Enum(v) if v.is_empty())
}

/// `value_fuel` can make values of any depth of this schema: legal, every recursion can be escaped
/// on the way, types without values only where they can be avoided, and not too big.
pub fn plausible(s: &Schema) -> bool {
    fn go(s: &Schema, path: &mut Vec<bool>, avoidable: bool, mult: usize) -> bool {
        let mut sub = |i: &Schema, escape: bool, avoidable: bool, mult: usize| {
            path.push(escape);
            let r = go(i, path, avoidable, mult);
            path.pop();
            r
        };
        match s {
            Schema::Recurse(n) => *n > 0 && *n <= path.len() && path[path.len() - n..].iter().any(|e| *e),
            Schema::Option(i) => sub(i, true, true, mult),
            Schema::Seq(SeqSchema { len: None, inner }) => sub(inner, true, true, mult),
            Schema::Seq(SeqSchema { len: Some(n), inner }) => {
                let m = mult.saturating_mul((*n).max(1));
                m <= 4096 && sub(inner, false, false, m)
            }
            Schema::Tuple(ss) => ss.iter().all(|s| sub(s, false, false, mult)),
            Schema::Struct(ss) => ss.iter().all(|s| sub(&s.inner, false, false, mult)),
            Schema::Enum(ss) => (avoidable || !ss.is_empty()) && ss.iter().enumerate().all(|(i, s)| sub(&s.inner, i > 0, false, mult)),
            _ => true,
        }
    }
    go(s, &mut vec![], false, 1)
}

/// Change one node (or a few) as the next version of a program might. False if nothing was done.
pub fn tweak(ctx: &Ctx, s: &mut Schema) -> bool {
    let n = count_nodes(s);
    // the root and shallow nodes more often
    let at = if ctx.chance(1, 8) { n - 1 - ctx.below(n.min(3)) } else { ctx.below(n) };
    let mut i = 0;
    let mut done = false;
    walk_mut(s, 0, &mut |s, d| {
        if i == at {
            done = tweak_node(ctx, s, d);
        }
        i += 1;
    });
    done
}

fn other_leaf(ctx: &Ctx) -> Schema {
    match ctx.draw(6) {
        0 => Schema::Unit,
        1 => Schema::Str,
        2 => Schema::Bytes,
        3 => Schema::Tuple(vec![]),
        _ => Schema::Scalar(*ctx.pick(SCALARS)),
    }
}

/// Another name, often hardly another.
pub fn rename(ctx: &Ctx, s: &mut String) {
    match ctx.draw(5) {
        0 => s.push('_'),
        1 => {
            s.pop();
        }
        2 => match s.is_empty() || ctx.chance(1, 2) {
            true => *s = s.to_uppercase(),
            // one character, anywhere
            false => {
                let n = s.chars().count();
                let at = if ctx.chance(1, 2) { n - 1 } else { ctx.below(n) };
                *s = s.chars().enumerate().map(|(i, c)| if i == at { if c == 'q' { 'r' } else { 'q' } } else { c }).collect();
            }
        },
        3 => *s = ctx.pick(NAMES).to_string(),
        _ => s.clear(),
    }
}

fn tweak_node(ctx: &Ctx, s: &mut Schema, d: usize) -> bool {
    // wrapping or replacing applies to every node
    match ctx.draw(12) {
        0 => {
            let old = std::mem::replace(s, Schema::Unit);
            *s = match ctx.draw(5) {
                0 => Schema::Option(Box::new(old)),
                1 => Schema::Seq(SeqSchema { len: None, inner: Box::new(old) }),
                2 => Schema::Seq(SeqSchema { len: Some(1), inner: Box::new(old) }),
                3 => Schema::Tuple(vec![old]),
                _ => Schema::Struct(vec![StructSchemaField { name: "a".into(), inner: old }]),
            };
            return true;
        }
        1 => {
            *s = other_leaf(ctx);
            return true;
        }
        2 => {
            let mut o = SAFE;
            o.depth = 2;
            o.big_enums = false;
            *s = schema(ctx, o);
            return true;
        }
        _ => {}
    }
    match s {
        Schema::Scalar(t) => *t = *ctx.pick(SCALARS),
        Schema::Str => *s = Schema::Bytes,
        Schema::Bytes => *s = if ctx.chance(1, 2) { Schema::Str } else { Schema::Seq(SeqSchema { len: None, inner: Box::new(Schema::Scalar(ScalarType::U8)) }) },
        Schema::Unit => *s = other_leaf(ctx),
        Schema::Option(i) => {
            *s = match ctx.draw(3) {
                0 => (**i).clone(),
                1 => Schema::Seq(SeqSchema { len: None, inner: i.clone() }),
                _ => Schema::Enum(vec![EnumSchemaVariant { name: "None".into(), inner: Schema::Unit }, EnumSchemaVariant { name: "Some".into(), inner: (**i).clone() }]),
            }
        }
        Schema::Seq(q) => match (q.len, ctx.draw(5)) {
            (Some(n), 0) => q.len = Some(n.wrapping_add(1)),
            (Some(n), 1) => q.len = Some(n.saturating_sub(1)),
            (Some(_), 2) => q.len = None,
            (Some(n), 3) if n < 20 => *s = Schema::Tuple(vec![(*q.inner).clone(); n]),
            (None, 0) => q.len = Some(0),
            (None, 1) => q.len = Some(ctx.below(4)),
            (None, 2) => *s = Schema::Tuple(vec![(*q.inner).clone(); ctx.below(4)]),
            _ => *s = Schema::Unit,
        },
        Schema::Tuple(ss) => match ctx.draw(6) {
            0 => ss.push(other_leaf(ctx)),
            1 => {
                ss.pop();
            }
            2 if ss.len() > 1 => {
                let i = ctx.below(ss.len() - 1);
                ss.swap(i, i + 1)
            }
            3 if !ss.is_empty() => *s = Schema::Seq(SeqSchema { len: None, inner: Box::new(ss[0].clone()) }),
            4 if !ss.is_empty() => *s = Schema::Seq(SeqSchema { len: Some(ss.len()), inner: Box::new(ss[0].clone()) }),
            5 if ss.len() == 1 => *s = ss[0].clone(),
            _ => *s = Schema::Struct(ss.iter().enumerate().map(|(i, s)| StructSchemaField { name: i.to_string(), inner: s.clone() }).collect()),
        },
        Schema::Struct(fs) => match ctx.draw(7) {
            0 => {
                let at = ctx.below(fs.len() + 1);
                fs.insert(at, StructSchemaField { name: (*ctx.pick(NAMES)).to_string(), inner: other_leaf(ctx) })
            }
            1 if !fs.is_empty() => {
                let at = ctx.below(fs.len());
                fs.remove(at);
            }
            2 if fs.len() > 1 => {
                let i = ctx.below(fs.len() - 1);
                fs.swap(i, i + 1)
            }
            3 if fs.len() > 1 => {
                // only the names change places
                let i = ctx.below(fs.len() - 1);
                let a = std::mem::take(&mut fs[i].name);
                let b = std::mem::replace(&mut fs[i + 1].name, a);
                fs[i].name = b;
            }
            4 => *s = Schema::Tuple(fs.iter().map(|f| f.inner.clone()).collect()),
            _ if !fs.is_empty() => {
                let i = ctx.below(fs.len());
                rename(ctx, &mut fs[i].name)
            }
            _ => return false,
        },
        Schema::Enum(vs) => match ctx.draw(7) {
            0 => {
                let at = ctx.below(vs.len() + 1);
                vs.insert(at, EnumSchemaVariant { name: (*ctx.pick(NAMES)).to_string(), inner: other_leaf(ctx) })
            }
            1 if vs.len() > 1 => {
                let at = if ctx.chance(1, 2) { vs.len() - 1 } else { ctx.below(vs.len()) };
                vs.remove(at);
            }
            2 if vs.len() > 1 => {
                let i = ctx.below(vs.len() - 1);
                vs.swap(i, i + 1)
            }
            3 if vs.len() > 1 => {
                let i = ctx.below(vs.len() - 1);
                let a = std::mem::take(&mut vs[i].name);
                let b = std::mem::replace(&mut vs[i + 1].name, a);
                vs[i].name = b;
            }
            4 if vs.len() < 600 => {
                // across the widths of an ordinal
                let n = *ctx.pick(&[2usize, 256, 257]);
                for i in vs.len()..n {
                    vs.push(EnumSchemaVariant { name: format!("more{}", i), inner: Schema::Unit });
                }
            }
            _ if !vs.is_empty() => {
                let i = ctx.below(vs.len());
                rename(ctx, &mut vs[i].name)
            }
            _ => return false,
        },
        Schema::Recurse(n) => match ctx.draw(3) {
            0 if *n > 1 => *n -= 1,
            1 if *n < d => *n += 1,
            _ => *s = other_leaf(ctx),
        },
    }
    true
}

pub fn value(ctx: &Ctx, s: &Schema) -> Value {
    let fuel = *ctx.pick(&[12i64, 3, 40, 150]);
    value_fuel(ctx, s, fuel)
}

/// Fixed lengths inside recursion multiply: beyond this the value is given up for a minimal one.
const TOO_BIG: i64 = -3000;

pub fn value_fuel(ctx: &Ctx, s: &Schema, fuel: i64) -> Value {
    let mut fuel = fuel;
    let v = value_in(ctx, s, None, &mut fuel, TOO_BIG);
    if fuel > TOO_BIG {
        return v;
    }
    value_in(ctx, s, None, &mut 0, i64::MIN)
}

fn value_in(ctx: &Ctx, s: &Schema, env: Option<&Env>, fuel: &mut i64, floor: i64) -> Value {
    if *fuel <= floor {
        return Value::Unit;
    }
    let rec = matches!(s, Schema::Recurse(_));
    let (s, env) = resolve(s, env).expect("legal schema");
    if rec && env.is_some() {
        ctx.count(K::PMutualRec);
    }
    let here = Env { schema: s, up: env };
    let inner = Some(&here);
    *fuel -= 1;
    match s {
        Schema::Scalar(t) => Value::Scalar(scalar(ctx, *t)),
        Schema::Str => Value::Str(string(ctx, fuel)),
        Schema::Bytes => Value::Bytes(bytes(ctx, fuel)),
        Schema::Unit => Value::Unit,
        Schema::Option(i) => {
            if *fuel > 0 && !uninhabited(i) && ctx.chance(3, 4) {
                Value::Option(Some(Box::new(value_in(ctx, i, inner, fuel, floor))))
            } else {
                Value::Option(None)
            }
        }
        Schema::Seq(SeqSchema { len: Some(n), inner: i }) => Value::FixedLenSeq((0..*n).map(|_| value_in(ctx, i, inner, fuel, floor)).collect()),
        Schema::Seq(SeqSchema { len: None, inner: i }) => {
            let n = if *fuel <= 0 || uninhabited(i) {
                0
            } else if ctx.chance(1, 24) && matches!(**i, Schema::Scalar(_) | Schema::Unit) {
                *ctx.pick(&[127usize, 128, 129, 300, 1000, 255, 256, 257, 1023, 1024, 1025, middling(ctx), middling(ctx), middling(ctx)])
            } else if *fuel > 30 && ctx.chance(1, 24) {
                middling(ctx).min(*fuel as usize)
            } else {
                *ctx.pick(&[2usize, 0, 1, 3, 5])
            };
            if n == 0 {
                ctx.count(K::PEmptySeq);
            }
            if n > 127 {
                ctx.count(K::PLongSeq);
            }
            Value::VarLenSeq((0..n).map(|_| value_in(ctx, i, inner, fuel, floor)).collect())
        }
        Schema::Tuple(ss) => Value::Tuple(ss.iter().map(|s| value_in(ctx, s, inner, fuel, floor)).collect()),
        Schema::Struct(fs) => Value::Struct(fs.iter().map(|f| StructValueField { name: f.name.clone(), value: value_in(ctx, &f.inner, inner, fuel, floor) }).collect()),
        Schema::Enum(vs) => {
            let o = ordinal(ctx, vs.len(), *fuel);
            Value::Enum(EnumValue { variant_ord: o, variant_name: vs[o].name.clone(), value: Box::new(value_in(ctx, &vs[o].inner, inner, fuel, floor)) })
        }
        Schema::Recurse(_) => unreachable!(),
    }
}

pub fn ordinal(ctx: &Ctx, n: usize, fuel: i64) -> usize {
    if fuel <= 0 {
        0
    } else if n > 9 {
        match ctx.draw(4) {
            0 => n - 1,
            1 => ctx.below(9.min(n)),
            2 => 255.min(n - 1) + ctx.below(3.min(n - 255.min(n - 1))),
            _ => ctx.below(n),
        }
    } else {
        ctx.below(n)
    }
}

/// Something out of all proportion in one respect, with the rest kept simple.
pub fn extreme(ctx: &Ctx) -> (Schema, Value) {
    let salt = ctx.draw(1 << 16);
    let num = |i: usize| Value::Scalar(ScalarValue::U8(mix(salt ^ (i as u64) << 17) as u8));
    let small = Schema::Scalar(ScalarType::U8);
    let (s, v) = match ctx.draw(6) {
        0 => {
            ctx.count(K::PExtremeBlob);
            let n = *ctx.pick(&[1usize << 20, (1 << 20) + 1, 70_000, (1 << 18) - 1, 3_000_000, (1 << 21) + 5, (1 << 24) + 1]);
            if ctx.chance(1, 2) {
                (Schema::Bytes, Value::Bytes((0..n).map(|i| mix(salt ^ (i as u64) << 17) as u8).collect()))
            } else {
                // of one byte each, or with characters of several bytes now and then or everywhere
                let wide = *ctx.pick(&[0u64, 0, 2, 40]);
                let mut t = String::with_capacity(n + 4);
                for i in 0.. {
                    let r = mix(salt ^ i << 17);
                    t.push(if wide > 0 && r % wide == 0 { ['é', '\u{7ff}', '€', '\u{ffff}', '\u{10000}', '\u{10ffff}'][(r >> 32) as usize % 6] } else { (33 + r % 90) as u8 as char });
                    if t.len() >= n {
                        break;
                    }
                }
                (Schema::Str, Value::Str(t))
            }
        }
        1 => {
            ctx.count(K::PExtremeSeq);
            let n = *ctx.pick(&[256usize, 255, 257, 4096, 5000, 65535, 65536, 65537, 70_000]);
            let (inner, f): (Schema, &dyn Fn(usize) -> Value) = match ctx.draw(4) {
                0 => (small, &num),
                1 => (Schema::Unit, &|_| Value::Unit),
                2 => (Schema::Scalar(ScalarType::I32), &|i| Value::Scalar(ScalarValue::I32(mix(salt ^ (i as u64) << 17) as i32 >> (i % 31)))),
                _ => (Schema::Option(Box::new(small)), &|i| Value::Option(if mix(salt ^ i as u64) & 1 == 0 { None } else { Some(Box::new(num(i))) })),
            };
            let xs: Vec<Value> = (0..n).map(|i| f(i)).collect();
            if ctx.chance(1, 2) {
                (Schema::Seq(SeqSchema { len: None, inner: Box::new(inner) }), Value::VarLenSeq(xs))
            } else {
                (Schema::Seq(SeqSchema { len: Some(n), inner: Box::new(inner) }), Value::FixedLenSeq(xs))
            }
        }
        2 => {
            ctx.count(K::PExtremeWidth);
            let n = *ctx.pick(&[256usize, 127, 128, 255, 257, 300, 1000, 5000, 65537, 66_000]);
            let odd = |i: usize| mix(salt ^ !(i as u64)) % 4 == 0;
            if ctx.chance(1, 2) {
                (Schema::Tuple((0..n).map(|i| if odd(i) { Schema::Unit } else { small.clone() }).collect()), Value::Tuple((0..n).map(|i| if odd(i) { Value::Unit } else { num(i) }).collect()))
            } else {
                let name = |i: usize| format!("f{}", i / 2 * 2);
                (
                    Schema::Struct((0..n).map(|i| StructSchemaField { name: name(i), inner: if odd(i) { Schema::Unit } else { small.clone() } }).collect()),
                    Value::Struct((0..n).map(|i| StructValueField { name: name(i), value: if odd(i) { Value::Unit } else { num(i) } }).collect()),
                )
            }
        }
        3 => {
            ctx.count(K::PExtremeDepth);
            let n = *ctx.pick(&[64usize, 30, 100, 128, 129, 257, 400]);
            let kind = ctx.draw(7);
            let (mut s, mut v) = (small, num(0));
            for i in 0..n {
                (s, v) = layer(if kind == 6 { mix(salt ^ i as u64) % 6 } else { kind }, s, v);
            }
            (s, v)
        }
        4 => {
            // a chain of values, each within the one before by recursion
            ctx.count(K::PExtremeDepth);
            let n = *ctx.pick(&[64usize, 30, 100, 128, 129, 257, 400]);
            match ctx.draw(4) {
                3 => {
                    // from far down up to the root, or to what is next to it
                    let near = ctx.below(2);
                    let mut s = Schema::Recurse(n + 1 - near);
                    for _ in 0..n {
                        s = Schema::Option(Box::new(s));
                    }
                    let s = Schema::Tuple(vec![small, s]);
                    let mut v = Value::Option(None);
                    for turn in 0..2 + ctx.below(3) {
                        let mut o = if near == 0 { Value::Tuple(vec![num(turn), v]) } else { v };
                        for _ in 0..n {
                            o = Value::Option(Some(Box::new(o)));
                        }
                        v = o;
                    }
                    (s, Value::Tuple(vec![num(7), v]))
                }
                0 => {
                    let s = Schema::Struct(vec![("a".to_string(), small).into(), ("b".to_string(), Schema::Option(Box::new(Schema::Recurse(2)))).into()]);
                    let mut next = None;
                    for i in 0..n {
                        next = Some(Box::new(Value::Struct(vec![StructValueField { name: "a".into(), value: num(i) }, StructValueField { name: "b".into(), value: Value::Option(next) }])));
                    }
                    (s, *next.unwrap())
                }
                1 => {
                    let s = Schema::Seq(SeqSchema { len: None, inner: Box::new(Schema::Recurse(1)) });
                    let mut v = Value::VarLenSeq(vec![]);
                    for i in 0..n {
                        let mut xs = vec![v];
                        if mix(salt ^ i as u64) & 1 == 0 {
                            xs.push(Value::VarLenSeq(vec![]));
                        }
                        v = Value::VarLenSeq(xs);
                    }
                    (s, v)
                }
                _ => {
                    let s = Schema::Enum(vec![("End".to_string(), Schema::Str).into(), ("More".to_string(), Schema::Tuple(vec![small, Schema::Recurse(2)])).into()]);
                    let mut v = Value::Enum(EnumValue { variant_ord: 0, variant_name: "End".into(), value: Box::new(Value::Str("end".into())) });
                    for i in 0..n {
                        v = Value::Enum(EnumValue { variant_ord: 1, variant_name: "More".into(), value: Box::new(Value::Tuple(vec![num(i), v])) });
                    }
                    (s, v)
                }
            }
        }
        _ => {
            ctx.count(K::PExtremeName);
            let n = *ctx.pick(&[256usize, 255, 1000, 70_000]);
            let name = (if ctx.chance(1, 2) { "n" } else { "\u{10ffff}" }).repeat(n);
            if ctx.chance(1, 2) {
                (Schema::Struct(vec![(name.clone(), small).into()]), Value::Struct(vec![StructValueField { name, value: num(0) }]))
            } else {
                (Schema::Enum(vec![(name.clone(), small).into()]), Value::Enum(EnumValue { variant_ord: 0, variant_name: name, value: Box::new(num(0)) }))
            }
        }
    };
    match ctx.draw(3) {
        0 => (s, v),
        1 => (Schema::Tuple(vec![s, Schema::Scalar(ScalarType::U16)]), Value::Tuple(vec![v, Value::Scalar(ScalarValue::U16(salt as u16))])),
        _ => (Schema::Option(Box::new(s)), Value::Option(Some(Box::new(v)))),
    }
}

pub fn layer(kind: u64, s: Schema, v: Value) -> (Schema, Value) {
    match kind {
        0 => (Schema::Option(Box::new(s)), Value::Option(Some(Box::new(v)))),
        1 => (Schema::Tuple(vec![s]), Value::Tuple(vec![v])),
        2 => (Schema::Seq(SeqSchema { len: Some(1), inner: Box::new(s) }), Value::FixedLenSeq(vec![v])),
        3 => (Schema::Seq(SeqSchema { len: None, inner: Box::new(s) }), Value::VarLenSeq(vec![v])),
        4 => (Schema::Struct(vec![("f".to_string(), s).into()]), Value::Struct(vec![StructValueField { name: "f".into(), value: v }])),
        _ => (Schema::Enum(vec![("u".to_string(), Schema::Unit).into(), ("v".to_string(), s).into()]), Value::Enum(EnumValue { variant_ord: 1, variant_name: "v".into(), value: Box::new(v) })),
    }
}
