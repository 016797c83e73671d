//! Reference model written from FORMAT.txt: encoder, decoder and call-by-call coder machine.
//! It shares only the plain data types `Schema` and `Value` with the library.

use binschema::error::ErrorKind;
use binschema::value::{EnumValue, ScalarValue, StructValueField, Value};
use binschema::{ScalarType, Schema, SeqSchema};

/// Lexical position in a schema tree.
pub struct Env<'s, 'e> {
    pub schema: &'s Schema,
    pub up: Option<&'e Env<'s, 'e>>,
}

/// Follow recursion references from a node whose parent chain is `env`.
pub fn resolve<'s, 'e>(mut s: &'s Schema, mut env: Option<&'e Env<'s, 'e>>) -> Option<(&'s Schema, Option<&'e Env<'s, 'e>>)> {
    while let &Schema::Recurse(n) = s {
        if n == 0 {
            return None;
        }
        let mut e = env?;
        for _ in 1..n {
            e = e.up?;
        }
        s = e.schema;
        env = e.up;
    }
    Some((s, env))
}

pub fn uint(mut n: u128) -> Vec<u8> {
    let mut v = Vec::new();
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b + 128);
    }
}

pub fn sint(n: i128) -> Vec<u8> {
    let (neg, m) = if n < 0 { (64, (-(n + 1)) as u128) } else { (0, n as u128) };
    let mut first = (m % 64) as u8 + neg;
    let rest = m / 64;
    if rest == 0 {
        return vec![first];
    }
    first += 128;
    let mut v = vec![first];
    v.extend(uint(rest));
    v
}

/// Bytes of an enum ordinal among `n` variants.
pub fn ord_len(n: usize) -> usize {
    let mut max = n - 1;
    let mut l = 0;
    while max > 0 {
        max /= 256;
        l += 1;
    }
    l
}

pub fn scalar_bytes(s: ScalarValue) -> Vec<u8> {
    use ScalarValue::*;
    fn le(n: u64, l: usize) -> Vec<u8> {
        (0..l).map(|i| (n >> (8 * i)) as u8).collect()
    }
    match s {
        U8(n) => vec![n],
        I8(n) => vec![n as u8],
        U16(n) => le(n as u64, 2),
        I16(n) => le(n as u16 as u64, 2),
        U32(n) => uint(n as u128),
        U64(n) => uint(n as u128),
        U128(n) => uint(n),
        I32(n) => sint(n as i128),
        I64(n) => sint(n as i128),
        I128(n) => sint(n),
        F32(x) => le(x.to_bits() as u64, 4),
        F64(x) => le(x.to_bits(), 8),
        Char(c) => uint(c as u32 as u128),
        Bool(b) => vec![b as u8],
    }
}

pub fn scalar_type(s: ScalarValue) -> ScalarType {
    use ScalarValue::*;
    match s {
        U8(_) => ScalarType::U8,
        U16(_) => ScalarType::U16,
        U32(_) => ScalarType::U32,
        U64(_) => ScalarType::U64,
        U128(_) => ScalarType::U128,
        I8(_) => ScalarType::I8,
        I16(_) => ScalarType::I16,
        I32(_) => ScalarType::I32,
        I64(_) => ScalarType::I64,
        I128(_) => ScalarType::I128,
        F32(_) => ScalarType::F32,
        F64(_) => ScalarType::F64,
        Char(_) => ScalarType::Char,
        Bool(_) => ScalarType::Bool,
    }
}

/// Bit-exact equality.
pub fn veq(a: &Value, b: &Value) -> bool {
    use Value::*;
    match (a, b) {
        (Scalar(x), Scalar(y)) => scalar_type(*x) == scalar_type(*y) && scalar_bytes(*x) == scalar_bytes(*y),
        (Str(x), Str(y)) => x == y,
        (Bytes(x), Bytes(y)) => x == y,
        (Unit, Unit) => true,
        (Option(None), Option(None)) => true,
        (Option(Some(x)), Option(Some(y))) => veq(x, y),
        (FixedLenSeq(x), FixedLenSeq(y)) | (VarLenSeq(x), VarLenSeq(y)) | (Tuple(x), Tuple(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| veq(x, y)),
        (Struct(x), Struct(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.name == y.name && veq(&x.value, &y.value)),
        (Enum(x), Enum(y)) => x.variant_ord == y.variant_ord && x.variant_name == y.variant_name && veq(&x.value, &y.value),
        _ => false,
    }
}

// ---- primitive calls ----

/// A primitive encoder call.
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Scalar(ScalarValue),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None_,
    Some_,
    FixedSeq(usize),
    VarSeq(usize),
    SeqElem,
    FinishSeq,
    Tuple,
    TupleElem,
    FinishTuple,
    Struct,
    Field(String),
    FinishStruct,
    Enum(usize, String),
}

/// A primitive decoder call.
#[derive(Clone, Debug, PartialEq)]
pub enum DOp {
    Scalar(ScalarType),
    Str,
    StrInto,
    Bytes,
    BytesInto,
    Unit,
    Option,
    FixedSeq(usize),
    VarSeq,
    SeqElem,
    FinishSeq,
    Tuple,
    TupleElem,
    FinishTuple,
    Struct,
    Field(String),
    FinishStruct,
    Enum,
    Variant(String),
}

/// What a decoder call returns.
#[derive(Clone, Debug)]
pub enum Res {
    Nothing,
    Scalar(ScalarValue),
    Str(String),
    Bytes(Vec<u8>),
    Some_(bool),
    Len(usize),
    Ord(usize),
}

impl Res {
    pub fn same(&self, o: &Res) -> bool {
        match (self, o) {
            (Res::Nothing, Res::Nothing) => true,
            (Res::Scalar(a), Res::Scalar(b)) => veq(&Value::Scalar(*a), &Value::Scalar(*b)),
            (Res::Str(a), Res::Str(b)) => a == b,
            (Res::Bytes(a), Res::Bytes(b)) => a == b,
            (Res::Some_(a), Res::Some_(b)) => a == b,
            (Res::Len(a), Res::Len(b)) => a == b,
            (Res::Ord(a), Res::Ord(b)) => a == b,
            _ => false,
        }
    }
}

/// The primitive calls that encode a value, each with its bytes.
pub fn flatten(schema: &Schema, v: &Value) -> Vec<(Op, Vec<u8>)> {
    let mut out = Vec::new();
    flat(schema, None, v, &mut out);
    out
}

pub fn encode(schema: &Schema, v: &Value) -> Vec<u8> {
    let mut b = Vec::new();
    for (_, x) in flatten(schema, v) {
        b.extend(x);
    }
    b
}

fn flat(schema: &Schema, env: Option<&Env>, v: &Value, out: &mut Vec<(Op, Vec<u8>)>) {
    let (s, env) = resolve(schema, env).expect("model: legal schema");
    let here = Env { schema: s, up: env };
    let inner = Some(&here);
    match (s, v) {
        (Schema::Scalar(_), Value::Scalar(x)) => out.push((Op::Scalar(*x), scalar_bytes(*x))),
        (Schema::Str, Value::Str(x)) => {
            let mut b = uint(x.len() as u128);
            b.extend(x.as_bytes());
            out.push((Op::Str(x.clone()), b));
        }
        (Schema::Bytes, Value::Bytes(x)) => {
            let mut b = uint(x.len() as u128);
            b.extend(x);
            out.push((Op::Bytes(x.clone()), b));
        }
        (Schema::Unit, Value::Unit) => out.push((Op::Unit, vec![])),
        (Schema::Option(_), Value::Option(None)) => out.push((Op::None_, vec![0])),
        (Schema::Option(i), Value::Option(Some(x))) => {
            out.push((Op::Some_, vec![1]));
            flat(i, inner, x, out);
        }
        (Schema::Seq(SeqSchema { len: Some(n), inner: i }), Value::FixedLenSeq(xs)) => {
            assert_eq!(*n, xs.len());
            out.push((Op::FixedSeq(*n), vec![]));
            for x in xs {
                out.push((Op::SeqElem, vec![]));
                flat(i, inner, x, out);
            }
            out.push((Op::FinishSeq, vec![]));
        }
        (Schema::Seq(SeqSchema { len: None, inner: i }), Value::VarLenSeq(xs)) => {
            out.push((Op::VarSeq(xs.len()), uint(xs.len() as u128)));
            for x in xs {
                out.push((Op::SeqElem, vec![]));
                flat(i, inner, x, out);
            }
            out.push((Op::FinishSeq, vec![]));
        }
        (Schema::Tuple(ss), Value::Tuple(xs)) => {
            out.push((Op::Tuple, vec![]));
            for (s, x) in ss.iter().zip(xs) {
                out.push((Op::TupleElem, vec![]));
                flat(s, inner, x, out);
            }
            out.push((Op::FinishTuple, vec![]));
        }
        (Schema::Struct(fs), Value::Struct(xs)) => {
            out.push((Op::Struct, vec![]));
            for (f, x) in fs.iter().zip(xs) {
                out.push((Op::Field(f.name.clone()), vec![]));
                flat(&f.inner, inner, &x.value, out);
            }
            out.push((Op::FinishStruct, vec![]));
        }
        (Schema::Enum(vs), Value::Enum(e)) => {
            let l = ord_len(vs.len());
            let b = (0..l).map(|i| (e.variant_ord >> (8 * i)) as u8).collect();
            out.push((Op::Enum(e.variant_ord, e.variant_name.clone()), b));
            flat(&vs[e.variant_ord].inner, inner, &e.value, out);
        }
        (s, v) => panic!("model: value {:?} does not conform to {:?}", v, s),
    }
}

/// Does a value conform to a schema?
pub fn conforms(schema: &Schema, v: &Value) -> bool {
    fn go(s: &Schema, env: Option<&Env>, v: &Value) -> bool {
        let (s, env) = match resolve(s, env) {
            Some(x) => x,
            None => return false,
        };
        let here = Env { schema: s, up: env };
        let e = Some(&here);
        match (s, v) {
            (Schema::Scalar(t), Value::Scalar(x)) => scalar_type(*x) == *t,
            (Schema::Str, Value::Str(_)) | (Schema::Bytes, Value::Bytes(_)) | (Schema::Unit, Value::Unit) => true,
            (Schema::Option(_), Value::Option(None)) => true,
            (Schema::Option(i), Value::Option(Some(x))) => go(i, e, x),
            (Schema::Seq(SeqSchema { len: Some(n), inner }), Value::FixedLenSeq(xs)) => *n == xs.len() && xs.iter().all(|x| go(inner, e, x)),
            (Schema::Seq(SeqSchema { len: None, inner }), Value::VarLenSeq(xs)) => xs.iter().all(|x| go(inner, e, x)),
            (Schema::Tuple(ss), Value::Tuple(xs)) => ss.len() == xs.len() && ss.iter().zip(xs).all(|(s, x)| go(s, e, x)),
            (Schema::Struct(fs), Value::Struct(xs)) => fs.len() == xs.len() && fs.iter().zip(xs).all(|(f, x)| f.name == x.name && go(&f.inner, e, &x.value)),
            (Schema::Enum(vs), Value::Enum(x)) => vs.get(x.variant_ord).map_or(false, |w| w.name == x.variant_name && go(&w.inner, e, &x.value)),
            _ => false,
        }
    }
    go(schema, None, v)
}

/// The decoder calls matching an encoder call.
pub fn to_dops(op: &Op) -> Vec<DOp> {
    match op {
        Op::Scalar(s) => vec![DOp::Scalar(scalar_type(*s))],
        Op::Str(_) => vec![DOp::Str],
        Op::Bytes(_) => vec![DOp::Bytes],
        Op::Unit => vec![DOp::Unit],
        Op::None_ | Op::Some_ => vec![DOp::Option],
        Op::FixedSeq(n) => vec![DOp::FixedSeq(*n)],
        Op::VarSeq(_) => vec![DOp::VarSeq],
        Op::SeqElem => vec![DOp::SeqElem],
        Op::FinishSeq => vec![DOp::FinishSeq],
        Op::Tuple => vec![DOp::Tuple],
        Op::TupleElem => vec![DOp::TupleElem],
        Op::FinishTuple => vec![DOp::FinishTuple],
        Op::Struct => vec![DOp::Struct],
        Op::Field(n) => vec![DOp::Field(n.clone())],
        Op::FinishStruct => vec![DOp::FinishStruct],
        Op::Enum(_, n) => vec![DOp::Enum, DOp::Variant(n.clone())],
    }
}

// ---- reading ----

/// Why bytes are not a message.
#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Bad {
    /// Not a message of the schema.
    Malformed,
    /// A length beyond this platform.
    Limits,
    /// The data ends first.
    Truncated,
    /// The data ends first, within a string or bytes longer than any allocation can be.
    Huge,
    /// An illegal recursion reference is reached.
    Illegal,
}

pub struct Cur<'d> {
    pub d: &'d [u8],
    pub pos: usize,
}

impl<'d> Cur<'d> {
    fn byte(&mut self) -> Result<u8, Bad> {
        let b = *self.d.get(self.pos).ok_or(Bad::Truncated)?;
        self.pos += 1;
        Ok(b)
    }
    fn take(&mut self, n: usize) -> Result<&'d [u8], Bad> {
        if self.d.len() - self.pos < n {
            self.pos = self.d.len();
            return Err(Bad::Truncated);
        }
        let r = &self.d[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    fn le(&mut self, l: usize) -> Result<u64, Bad> {
        let b = self.take(l)?;
        Ok((0..l).map(|i| (b[i] as u64) << (8 * i)).sum())
    }
    fn uint(&mut self) -> Result<u128, Bad> {
        let mut n = 0u128;
        for i in 0..19 {
            let b = self.byte()?;
            n |= ((b & 127) as u128) << (7 * i);
            if b < 128 {
                return Ok(n);
            }
        }
        Err(Bad::Malformed)
    }
    fn sint(&mut self) -> Result<i128, Bad> {
        let b = self.byte()?;
        let neg = b & 64 != 0;
        let mut n = (b & 63) as u128;
        let mut more = b >= 128;
        let mut shift = 6;
        while more {
            if shift >= 128 {
                return Err(Bad::Malformed);
            }
            let b = self.byte()?;
            n |= ((b & 127) as u128) << shift;
            shift += 7;
            more = b >= 128;
        }
        Ok(if neg { !n as i128 } else { n as i128 })
    }
    fn scalar(&mut self, t: ScalarType) -> Result<ScalarValue, Bad> {
        use ScalarType as T;
        use ScalarValue as V;
        macro_rules! fit {
            ($n:expr) => {
                $n.try_into().map_err(|_| Bad::Malformed)?
            };
        }
        Ok(match t {
            T::U8 => V::U8(self.byte()?),
            T::I8 => V::I8(self.byte()? as i8),
            T::U16 => V::U16(self.le(2)? as u16),
            T::I16 => V::I16(self.le(2)? as u16 as i16),
            T::U32 => V::U32(fit!(self.uint()?)),
            T::U64 => V::U64(fit!(self.uint()?)),
            T::U128 => V::U128(self.uint()?),
            T::I32 => V::I32(fit!(self.sint()?)),
            T::I64 => V::I64(fit!(self.sint()?)),
            T::I128 => V::I128(self.sint()?),
            T::F32 => V::F32(f32::from_bits(self.le(4)? as u32)),
            T::F64 => V::F64(f64::from_bits(self.le(8)?)),
            T::Char => {
                let n: u32 = fit!(self.uint()?);
                V::Char(char::from_u32(n).ok_or(Bad::Malformed)?)
            }
            T::Bool => match self.byte()? {
                0 => V::Bool(false),
                1 => V::Bool(true),
                _ => return Err(Bad::Malformed),
            },
        })
    }
    fn len(&mut self) -> Result<usize, Bad> {
        usize::try_from(self.uint()?).map_err(|_| Bad::Limits)
    }
    fn someness(&mut self) -> Result<bool, Bad> {
        match self.byte()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(Bad::Malformed),
        }
    }
    fn ord(&mut self, n: usize) -> Result<usize, Bad> {
        if n == 0 {
            return Err(Bad::Malformed);
        }
        let o = self.le(ord_len(n))?;
        if o >= n as u64 {
            return Err(Bad::Malformed);
        }
        Ok(o as usize)
    }
    fn bytes(&mut self) -> Result<Vec<u8>, Bad> {
        let n = self.len()?;
        if n > isize::MAX as usize {
            self.pos = self.d.len();
            return Err(Bad::Huge);
        }
        Ok(self.take(n)?.to_vec())
    }
    fn str(&mut self) -> Result<String, Bad> {
        String::from_utf8(self.bytes()?).map_err(|_| Bad::Malformed)
    }
}

/// Decode one value; also the position reached.
pub fn decode(schema: &Schema, d: &[u8]) -> (Result<Value, Bad>, usize) {
    let mut c = Cur { d, pos: 0 };
    let r = dec(schema, None, &mut c);
    (r, c.pos)
}

fn dec(schema: &Schema, env: Option<&Env>, c: &mut Cur) -> Result<Value, Bad> {
    let (s, env) = resolve(schema, env).ok_or(Bad::Illegal)?;
    let here = Env { schema: s, up: env };
    let inner = Some(&here);
    Ok(match s {
        Schema::Scalar(t) => Value::Scalar(c.scalar(*t)?),
        Schema::Str => Value::Str(c.str()?),
        Schema::Bytes => Value::Bytes(c.bytes()?),
        Schema::Unit => Value::Unit,
        Schema::Option(i) => match c.someness()? {
            false => Value::Option(None),
            true => Value::Option(Some(Box::new(dec(i, inner, c)?))),
        },
        Schema::Seq(SeqSchema { len, inner: i }) => {
            let n = match len {
                Some(n) => *n,
                None => c.len()?,
            };
            let mut xs = Vec::new();
            for _ in 0..n {
                xs.push(dec(i, inner, c)?);
            }
            if len.is_some() {
                Value::FixedLenSeq(xs)
            } else {
                Value::VarLenSeq(xs)
            }
        }
        Schema::Tuple(ss) => {
            let mut xs = Vec::new();
            for s in ss {
                xs.push(dec(s, inner, c)?);
            }
            Value::Tuple(xs)
        }
        Schema::Struct(fs) => {
            let mut xs = Vec::new();
            for f in fs {
                xs.push(StructValueField { name: f.name.clone(), value: dec(&f.inner, inner, c)? });
            }
            Value::Struct(xs)
        }
        Schema::Enum(vs) => {
            let o = c.ord(vs.len())?;
            Value::Enum(EnumValue { variant_ord: o, variant_name: vs[o].name.clone(), value: Box::new(dec(&vs[o].inner, inner, c)?) })
        }
        Schema::Recurse(_) => unreachable!(),
    })
}

// ---- the coder machine ----

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Need,
    Auto,
    Seq { len: usize, next: usize },
    Tuple { next: usize },
    Struct { next: usize },
    /// decoder only: ordinal read, name not yet given
    EnumOrd { ord: usize },
}

#[derive(Clone, Debug)]
pub struct Frame<'s> {
    pub schema: &'s Schema,
    /// frame of the lexical parent
    pub up: Option<usize>,
    pub st: St,
}

/// What a call is part of.
#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Part {
    /// a value, or the start of one
    Value,
    Seq,
    Tuple,
    Struct,
    Variant,
}

impl Op {
    pub fn part(&self) -> Part {
        match self {
            Op::SeqElem | Op::FinishSeq => Part::Seq,
            Op::TupleElem | Op::FinishTuple => Part::Tuple,
            Op::Field(_) | Op::FinishStruct => Part::Struct,
            _ => Part::Value,
        }
    }
}

impl DOp {
    pub fn part(&self) -> Part {
        match self {
            DOp::SeqElem | DOp::FinishSeq => Part::Seq,
            DOp::TupleElem | DOp::FinishTuple => Part::Tuple,
            DOp::Field(_) | DOp::FinishStruct => Part::Struct,
            DOp::Variant(_) => Part::Variant,
            _ => Part::Value,
        }
    }
}

/// Predicts every primitive call.
#[derive(Clone, Debug)]
pub struct Machine<'s> {
    pub stack: Vec<Frame<'s>>,
    pub broken: bool,
    pub root_illegal: bool,
}

/// Prediction for a call.
#[derive(Debug)]
pub enum Verdict<T> {
    /// Accepted: bytes to write, or result and bytes to read.
    Accept(T),
    /// Rejected, coder unchanged.
    Reject,
    /// Rejected because the coder is finished or broken.
    Dead,
    /// Refused: illegal schema; coder broken. Bytes read before the refusal.
    Illegal(usize),
    /// Refused: the data is bad; coder broken. Bytes needed to know.
    Bad(Bad, usize),
}

impl<'s> Machine<'s> {
    pub fn new(schema: &'s Schema) -> Self {
        Machine {
            stack: vec![Frame { schema, up: None, st: St::Need }],
            broken: false,
            root_illegal: matches!(schema, Schema::Recurse(_)),
        }
    }
    pub fn finished(&self) -> bool {
        self.stack.is_empty() && !self.broken
    }
    pub fn depth(&self) -> usize {
        self.stack.len()
    }
    /// The schema needed now, if a value is needed now.
    pub fn need(&self) -> Option<&'s Schema> {
        match self.stack.last() {
            Some(Frame { schema, st: St::Need, .. }) if !self.root_illegal => Some(schema),
            _ => None,
        }
    }
    /// Resolve `inner` as a child of frame `at`.
    fn target(&self, mut s: &'s Schema, at: usize) -> Option<(&'s Schema, Option<usize>)> {
        let mut up = Some(at);
        while let &Schema::Recurse(n) = s {
            if n == 0 {
                return None;
            }
            let mut e = up?;
            for _ in 1..n {
                e = self.stack[e].up?;
            }
            s = self.stack[e].schema;
            up = self.stack[e].up;
        }
        Some((s, up))
    }
    pub fn child_legal(&self, s: &'s Schema) -> bool {
        self.target(s, self.stack.len() - 1).is_some()
    }
    /// Begin a child of the top frame, leaving the top frame in `st`. False if illegal.
    fn enter(&mut self, s: &'s Schema, st: St) -> bool {
        let top = self.stack.len() - 1;
        match self.target(s, top) {
            Some((schema, up)) => {
                self.stack[top].st = st;
                self.stack.push(Frame { schema, up, st: St::Need });
                true
            }
            None => {
                self.broken = true;
                false
            }
        }
    }
    fn leave(&mut self) {
        self.stack.pop();
        while matches!(self.stack.last(), Some(Frame { st: St::Auto, .. })) {
            self.stack.pop();
        }
    }
    fn dead(&self) -> bool {
        self.broken || self.stack.is_empty()
    }
    fn top(&mut self) -> &mut Frame<'s> {
        self.stack.last_mut().unwrap()
    }

    /// The calls encoder and decoder share. None if `op` is not one of them.
    fn common(&mut self, op: &DOp) -> Option<Verdict<()>> {
        use Verdict::*;
        let (schema, st) = {
            let t = self.stack.last().unwrap();
            (t.schema, t.st.clone())
        };
        let illegal = |ok: bool| if ok { Accept(()) } else { Illegal(0) };
        Some(match (op, schema, st) {
            (DOp::FixedSeq(n), Schema::Seq(SeqSchema { len: Some(l), .. }), St::Need) => {
                if n == l {
                    self.top().st = St::Seq { len: *n, next: 0 };
                    Accept(())
                } else {
                    Reject
                }
            }
            (DOp::FixedSeq(_), ..) => Reject,
            (DOp::SeqElem, Schema::Seq(q), St::Seq { len, next }) if next < len => illegal(self.enter(&q.inner, St::Seq { len, next: next + 1 })),
            (DOp::SeqElem, ..) => Reject,
            (DOp::FinishSeq, _, St::Seq { len, next }) if len == next => {
                self.leave();
                Accept(())
            }
            (DOp::FinishSeq, ..) => Reject,
            (DOp::Tuple, Schema::Tuple(_), St::Need) => {
                self.top().st = St::Tuple { next: 0 };
                Accept(())
            }
            (DOp::Tuple, ..) => Reject,
            (DOp::TupleElem, Schema::Tuple(ss), St::Tuple { next }) if next < ss.len() => illegal(self.enter(&ss[next], St::Tuple { next: next + 1 })),
            (DOp::TupleElem, ..) => Reject,
            (DOp::FinishTuple, Schema::Tuple(ss), St::Tuple { next }) if next == ss.len() => {
                self.leave();
                Accept(())
            }
            (DOp::FinishTuple, ..) => Reject,
            (DOp::Struct, Schema::Struct(_), St::Need) => {
                self.top().st = St::Struct { next: 0 };
                Accept(())
            }
            (DOp::Struct, ..) => Reject,
            (DOp::Field(n), Schema::Struct(fs), St::Struct { next }) if next < fs.len() && &fs[next].name == n => illegal(self.enter(&fs[next].inner, St::Struct { next: next + 1 })),
            (DOp::Field(_), ..) => Reject,
            (DOp::FinishStruct, Schema::Struct(fs), St::Struct { next }) if next == fs.len() => {
                self.leave();
                Accept(())
            }
            (DOp::FinishStruct, ..) => Reject,
            (DOp::Unit, Schema::Unit, St::Need) => {
                self.leave();
                Accept(())
            }
            (DOp::Unit, ..) => Reject,
            _ => return None,
        })
    }

    /// Whose fault a rejected call is, where the kinds' documentation settles it: a call that no
    /// schema could allow at this point is misuse of the API, one that another schema could allow
    /// does not conform to this one. None: not settled.
    pub fn blame(&self, part: Part) -> Option<ErrorKind> {
        Some(match (&self.stack.last()?.st, part) {
            (St::Need, Part::Value) => ErrorKind::SchemaNonConformance,
            (St::Need, _) => return None,
            (St::Tuple { .. }, Part::Tuple) | (St::Struct { .. }, Part::Struct) | (St::EnumOrd { .. }, Part::Variant) => ErrorKind::SchemaNonConformance,
            _ => ErrorKind::ApiUsage,
        })
    }

    fn root_check<T>(&mut self) -> Option<Verdict<T>> {
        if self.dead() {
            return Some(Verdict::Dead);
        }
        if self.root_illegal {
            self.broken = true;
            return Some(Verdict::Illegal(0));
        }
        None
    }

    /// Predict an encoder call, assuming the stream accepts everything.
    pub fn enc(&mut self, op: &Op) -> Verdict<Vec<u8>> {
        use Verdict::*;
        if let Some(v) = self.root_check() {
            return v;
        }
        let (schema, need) = {
            let t = self.stack.last().unwrap();
            (t.schema, t.st == St::Need)
        };
        let c = match op {
            Op::FixedSeq(n) => Some(DOp::FixedSeq(*n)),
            Op::SeqElem => Some(DOp::SeqElem),
            Op::FinishSeq => Some(DOp::FinishSeq),
            Op::Tuple => Some(DOp::Tuple),
            Op::TupleElem => Some(DOp::TupleElem),
            Op::FinishTuple => Some(DOp::FinishTuple),
            Op::Struct => Some(DOp::Struct),
            Op::Field(n) => Some(DOp::Field(n.clone())),
            Op::FinishStruct => Some(DOp::FinishStruct),
            Op::Unit => Some(DOp::Unit),
            _ => None,
        };
        if let Some(c) = c {
            return match self.common(&c).unwrap() {
                Accept(()) => Accept(vec![]),
                Reject => Reject,
                Dead => Dead,
                Illegal(n) => Illegal(n),
                Bad(b, n) => Bad(b, n),
            };
        }
        if !need {
            return Reject;
        }
        match (op, schema) {
            (Op::Scalar(v), Schema::Scalar(t)) if scalar_type(*v) == *t => {
                self.leave();
                Accept(scalar_bytes(*v))
            }
            (Op::Str(s), Schema::Str) => {
                self.leave();
                let mut b = uint(s.len() as u128);
                b.extend(s.as_bytes());
                Accept(b)
            }
            (Op::Bytes(s), Schema::Bytes) => {
                self.leave();
                let mut b = uint(s.len() as u128);
                b.extend(s);
                Accept(b)
            }
            (Op::None_, Schema::Option(_)) => {
                self.leave();
                Accept(vec![0])
            }
            (Op::Some_, Schema::Option(i)) => {
                if self.enter(i, St::Auto) {
                    Accept(vec![1])
                } else {
                    Illegal(0)
                }
            }
            (Op::VarSeq(n), Schema::Seq(SeqSchema { len: None, .. })) => {
                self.top().st = St::Seq { len: *n, next: 0 };
                Accept(uint(*n as u128))
            }
            (Op::Enum(o, name), Schema::Enum(vs)) if *o < vs.len() && &vs[*o].name == name => {
                if self.enter(&vs[*o].inner, St::Auto) {
                    let l = ord_len(vs.len());
                    Accept((0..l).map(|i| (*o >> (8 * i)) as u8).collect())
                } else {
                    Illegal(0)
                }
            }
            _ => Reject,
        }
    }

    /// Predict a decoder call on the data that will be delivered.
    pub fn dec(&mut self, op: &DOp, data: &[u8]) -> Verdict<(Res, usize)> {
        use Verdict::*;
        if let Some(v) = self.root_check() {
            return v;
        }
        let (schema, st) = {
            let t = self.stack.last().unwrap();
            (t.schema, t.st.clone())
        };
        let need = st == St::Need;
        if let Some(v) = self.common(op) {
            return match v {
                Accept(()) => Accept((Res::Nothing, 0)),
                Reject => Reject,
                Dead => Dead,
                Illegal(n) => Illegal(n),
                Bad(b, n) => Bad(b, n),
            };
        }
        let mut c = Cur { d: data, pos: 0 };
        macro_rules! get {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(b) => {
                        self.broken = true;
                        return Bad(b, c.pos);
                    }
                }
            };
        }
        match (op, schema) {
            (DOp::Scalar(t), Schema::Scalar(u)) if need && t == u => {
                let v = get!(c.scalar(*t));
                self.leave();
                Accept((Res::Scalar(v), c.pos))
            }
            (DOp::Str | DOp::StrInto, Schema::Str) if need => {
                let v = get!(c.str());
                self.leave();
                Accept((Res::Str(v), c.pos))
            }
            (DOp::Bytes | DOp::BytesInto, Schema::Bytes) if need => {
                let v = get!(c.bytes());
                self.leave();
                Accept((Res::Bytes(v), c.pos))
            }
            (DOp::Option, Schema::Option(i)) if need => {
                let some = get!(c.someness());
                if some {
                    if !self.enter(i, St::Auto) {
                        return Illegal(1);
                    }
                } else {
                    self.leave();
                }
                Accept((Res::Some_(some), c.pos))
            }
            (DOp::VarSeq, Schema::Seq(SeqSchema { len: None, .. })) if need => {
                let n = get!(c.len());
                self.top().st = St::Seq { len: n, next: 0 };
                Accept((Res::Len(n), c.pos))
            }
            (DOp::Enum, Schema::Enum(vs)) if need => {
                let o = get!(c.ord(vs.len()));
                self.top().st = St::EnumOrd { ord: o };
                Accept((Res::Ord(o), c.pos))
            }
            (DOp::Variant(n), Schema::Enum(vs)) => match st {
                St::EnumOrd { ord } if &vs[ord].name == n => {
                    if self.enter(&vs[ord].inner, St::Auto) {
                        Accept((Res::Nothing, 0))
                    } else {
                        Illegal(0)
                    }
                }
                _ => Reject,
            },
            _ => Reject,
        }
    }
}
