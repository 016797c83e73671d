//! The interfaces of the library: primitive calls, dynamic values, serde with drawn shapes, serde
//! self-describing, serde skipping.

use crate::ctx::{Ctx, K};
use crate::model::{resolve, DOp, Env, Op, Res};
use binschema::error::{Error, ErrorKind};
use binschema::value::{EnumValue, ScalarValue, StructValueField, Value};
use binschema::{CoderState, Decoder, Encoder, ScalarType, Schema, SeqSchema};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::fmt;
use std::io::{Read, Write};

type R<T> = Result<T, Error>;

// ---- primitive calls ----

pub fn apply_op<W: Write>(e: &mut Encoder<W>, op: &Op) -> R<()> {
    match op {
        Op::Scalar(s) => match *s {
            ScalarValue::U8(n) => e.encode_u8(n),
            ScalarValue::U16(n) => e.encode_u16(n),
            ScalarValue::U32(n) => e.encode_u32(n),
            ScalarValue::U64(n) => e.encode_u64(n),
            ScalarValue::U128(n) => e.encode_u128(n),
            ScalarValue::I8(n) => e.encode_i8(n),
            ScalarValue::I16(n) => e.encode_i16(n),
            ScalarValue::I32(n) => e.encode_i32(n),
            ScalarValue::I64(n) => e.encode_i64(n),
            ScalarValue::I128(n) => e.encode_i128(n),
            ScalarValue::F32(n) => e.encode_f32(n),
            ScalarValue::F64(n) => e.encode_f64(n),
            ScalarValue::Char(n) => e.encode_char(n),
            ScalarValue::Bool(n) => e.encode_bool(n),
        },
        Op::Str(s) => e.encode_str(s),
        Op::Bytes(b) => e.encode_bytes(b),
        Op::Unit => e.encode_unit(),
        Op::None_ => e.encode_none(),
        Op::Some_ => e.begin_some(),
        Op::FixedSeq(n) => e.begin_fixed_len_seq(*n),
        Op::VarSeq(n) => e.begin_var_len_seq(*n),
        Op::SeqElem => e.begin_seq_elem(),
        Op::FinishSeq => e.finish_seq(),
        Op::Tuple => e.begin_tuple(),
        Op::TupleElem => e.begin_tuple_elem(),
        Op::FinishTuple => e.finish_tuple(),
        Op::Struct => e.begin_struct(),
        Op::Field(n) => e.begin_struct_field(n),
        Op::FinishStruct => e.finish_struct(),
        Op::Enum(o, n) => e.begin_enum(*o, n),
    }
}

pub fn dec_scalar<D: Read>(d: &mut Decoder<D>, t: ScalarType) -> R<ScalarValue> {
    Ok(match t {
        ScalarType::U8 => ScalarValue::U8(d.decode_u8()?),
        ScalarType::U16 => ScalarValue::U16(d.decode_u16()?),
        ScalarType::U32 => ScalarValue::U32(d.decode_u32()?),
        ScalarType::U64 => ScalarValue::U64(d.decode_u64()?),
        ScalarType::U128 => ScalarValue::U128(d.decode_u128()?),
        ScalarType::I8 => ScalarValue::I8(d.decode_i8()?),
        ScalarType::I16 => ScalarValue::I16(d.decode_i16()?),
        ScalarType::I32 => ScalarValue::I32(d.decode_i32()?),
        ScalarType::I64 => ScalarValue::I64(d.decode_i64()?),
        ScalarType::I128 => ScalarValue::I128(d.decode_i128()?),
        ScalarType::F32 => ScalarValue::F32(d.decode_f32()?),
        ScalarType::F64 => ScalarValue::F64(d.decode_f64()?),
        ScalarType::Char => ScalarValue::Char(d.decode_char()?),
        ScalarType::Bool => ScalarValue::Bool(d.decode_bool()?),
    })
}

/// Caller-owned buffers reused across calls.
#[derive(Default)]
pub struct Bufs {
    pub s: String,
    pub b: Vec<u8>,
}

impl Bufs {
    pub fn dirty() -> Self {
        Bufs { s: "left over".into(), b: b"left over".to_vec() }
    }
}

pub fn apply_dop<D: Read>(d: &mut Decoder<D>, op: &DOp, bufs: &mut Bufs) -> R<Res> {
    Ok(match op {
        DOp::Scalar(t) => Res::Scalar(dec_scalar(d, *t)?),
        DOp::Str => Res::Str(d.decode_str()?),
        DOp::StrInto => {
            d.decode_str_into(&mut bufs.s)?;
            Res::Str(bufs.s.clone())
        }
        DOp::Bytes => Res::Bytes(d.decode_bytes()?),
        DOp::BytesInto => {
            d.decode_bytes_into(&mut bufs.b)?;
            Res::Bytes(bufs.b.clone())
        }
        DOp::Unit => {
            d.decode_unit()?;
            Res::Nothing
        }
        DOp::Option => Res::Some_(d.begin_option()?),
        DOp::FixedSeq(n) => {
            d.begin_fixed_len_seq(*n)?;
            Res::Nothing
        }
        DOp::VarSeq => Res::Len(d.begin_var_len_seq()?),
        DOp::SeqElem => {
            d.begin_seq_elem()?;
            Res::Nothing
        }
        DOp::FinishSeq => {
            d.finish_seq()?;
            Res::Nothing
        }
        DOp::Tuple => {
            d.begin_tuple()?;
            Res::Nothing
        }
        DOp::TupleElem => {
            d.begin_tuple_elem()?;
            Res::Nothing
        }
        DOp::FinishTuple => {
            d.finish_tuple()?;
            Res::Nothing
        }
        DOp::Struct => {
            d.begin_struct()?;
            Res::Nothing
        }
        DOp::Field(n) => {
            d.begin_struct_field(n)?;
            Res::Nothing
        }
        DOp::FinishStruct => {
            d.finish_struct()?;
            Res::Nothing
        }
        DOp::Enum => Res::Ord(d.begin_enum()?),
        DOp::Variant(n) => {
            d.begin_enum_variant(n)?;
            Res::Nothing
        }
    })
}

/// Run one primitive encoder call through a fresh front.
pub fn enc_call<W: Write>(ctx: &Ctx, st: &mut CoderState, w: &mut W, op: &Op) -> R<()> {
    ctx.call();
    let r = apply_op(&mut Encoder::new(st, w), op);
    ctx.ev(50, r.is_ok() as u64, 0, || format!("  encoder.{} -> {}", short(&format!("{:?}", op)), show(&r)));
    r
}

pub fn dec_call<D: Read>(ctx: &Ctx, st: &mut CoderState, d: &mut D, op: &DOp, bufs: &mut Bufs) -> R<Res> {
    ctx.call();
    let r = apply_dop(&mut Decoder::new(st, d), op, bufs);
    ctx.ev(51, r.is_ok() as u64, 0, || format!("  decoder.{} -> {}", short(&format!("{:?}", op)), show(&r)));
    r
}

pub fn show<T: fmt::Debug>(r: &R<T>) -> String {
    match r {
        Ok(v) => short(&format!("Ok({:?})", v)),
        Err(e) => short(&format!("Err({:?}: {})", e.kind(), e.inner())),
    }
}

pub fn short(s: &str) -> String {
    let s: String = s.split_whitespace().collect::<Vec<_>>().join(" ");
    if s.chars().count() > 160 {
        s.chars().take(157).collect::<String>() + "..."
    } else {
        s
    }
}

// ---- whole messages ----

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum EncPath {
    Value,
    Ops,
    Serde,
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum DecPath {
    Value,
    Ops,
    Serde,
    Any,
    Skip,
}

pub fn enc_path(ctx: &Ctx) -> EncPath {
    *ctx.pick(&[EncPath::Value, EncPath::Ops, EncPath::Serde])
}

pub fn dec_path(ctx: &Ctx) -> DecPath {
    *ctx.pick(&[DecPath::Value, DecPath::Ops, DecPath::Serde, DecPath::Any, DecPath::Value, DecPath::Ops, DecPath::Serde, DecPath::Any, DecPath::Skip])
}

pub fn enc_all<W: Write>(ctx: &Ctx, p: EncPath, schema: &Schema, v: &Value, st: &mut CoderState, w: &mut W) -> R<()> {
    ctx.call();
    let r = match p {
        EncPath::Value => v.encode_to(&mut Encoder::new(st, w)),
        EncPath::Ops => (|| {
            for (op, _) in crate::model::flatten(schema, v) {
                enc_call(ctx, st, w, &op)?;
            }
            Ok(())
        })(),
        EncPath::Serde => DynSer { ctx, s: schema, env: None, v }.serialize(&mut Encoder::new(st, w)),
    };
    ctx.ev(52, p as u64, r.is_ok() as u64, || format!("encode through {:?} -> {}", p, show(&r)));
    r
}

/// Decode one message. None if it was skipped over.
pub fn dec_all<D: Read>(ctx: &Ctx, p: DecPath, schema: &Schema, st: &mut CoderState, d: &mut D) -> R<Option<Value>> {
    ctx.call();
    let r = match p {
        DecPath::Value => Value::decode_from(&mut Decoder::new(st, d)).map(Some),
        DecPath::Ops => dec_ops(ctx, schema, None, st, d, &mut Bufs::dirty()).map(Some),
        DecPath::Serde => DynDe { ctx, s: schema, env: None, any: false, sure: true }.deserialize(&mut Decoder::new(st, d)).map(Some),
        DecPath::Any => DynDe { ctx, s: schema, env: None, any: true, sure: true }.deserialize(&mut Decoder::new(st, d)).map(Some),
        DecPath::Skip => de::Deserialize::deserialize(&mut Decoder::new(st, d)).map(|_: IgnoredAny| None),
    };
    ctx.ev(53, p as u64, r.is_ok() as u64, || format!("decode through {:?} -> {}", p, show(&r)));
    r
}

/// Decode as if `schema` were the one in force, which it may not be.
pub fn dec_as<D: Read>(ctx: &Ctx, ops: bool, schema: &Schema, st: &mut CoderState, d: &mut D) -> R<Value> {
    ctx.call();
    let r = if ops {
        dec_ops(ctx, schema, None, st, d, &mut Bufs::dirty())
    } else {
        DynDe { ctx, s: schema, env: None, any: false, sure: false }.deserialize(&mut Decoder::new(st, d))
    };
    ctx.ev(54, ops as u64, r.is_ok() as u64, || format!("decode as {} -> {}", if ops { "calls" } else { "serde" }, show(&r)));
    r
}

/// Decode by primitive calls, following the schema as written.
fn dec_ops<D: Read>(ctx: &Ctx, s: &Schema, env: Option<&Env>, st: &mut CoderState, d: &mut D, bufs: &mut Bufs) -> R<Value> {
    let (s, env) = match resolve(s, env) {
        Some(x) => x,
        None => {
            // only the root gets here; anything deeper was refused by the call that reached it
            if env.is_none() {
                dec_call(ctx, st, d, &DOp::Unit, bufs)?;
            }
            return Err(Error::other("sim: library accepted an illegal reference"));
        }
    };
    let here = Env { schema: s, up: env };
    let inner = Some(&here);
    macro_rules! call {
        ($op:expr) => {
            dec_call(ctx, st, d, &$op, bufs)?
        };
    }
    Ok(match s {
        Schema::Scalar(t) => match call!(DOp::Scalar(*t)) {
            Res::Scalar(v) => Value::Scalar(v),
            _ => unreachable!(),
        },
        Schema::Str => match if ctx.chance(1, 2) { call!(DOp::StrInto) } else { call!(DOp::Str) } {
            Res::Str(v) => Value::Str(v),
            _ => unreachable!(),
        },
        Schema::Bytes => match if ctx.chance(1, 2) { call!(DOp::BytesInto) } else { call!(DOp::Bytes) } {
            Res::Bytes(v) => Value::Bytes(v),
            _ => unreachable!(),
        },
        Schema::Unit => {
            call!(DOp::Unit);
            Value::Unit
        }
        Schema::Option(i) => match call!(DOp::Option) {
            Res::Some_(true) => Value::Option(Some(Box::new(dec_ops(ctx, i, inner, st, d, bufs)?))),
            _ => Value::Option(None),
        },
        Schema::Seq(SeqSchema { len, inner: i }) => {
            let n = match len {
                Some(n) => {
                    call!(DOp::FixedSeq(*n));
                    *n
                }
                None => match call!(DOp::VarSeq) {
                    Res::Len(n) => n,
                    _ => unreachable!(),
                },
            };
            let mut xs = vec![];
            for _ in 0..n {
                call!(DOp::SeqElem);
                xs.push(dec_ops(ctx, i, inner, st, d, bufs)?);
            }
            call!(DOp::FinishSeq);
            if len.is_some() {
                Value::FixedLenSeq(xs)
            } else {
                Value::VarLenSeq(xs)
            }
        }
        Schema::Tuple(ss) => {
            call!(DOp::Tuple);
            let mut xs = vec![];
            for s in ss {
                call!(DOp::TupleElem);
                xs.push(dec_ops(ctx, s, inner, st, d, bufs)?);
            }
            call!(DOp::FinishTuple);
            Value::Tuple(xs)
        }
        Schema::Struct(fs) => {
            call!(DOp::Struct);
            let mut xs = vec![];
            for f in fs {
                call!(DOp::Field(f.name.clone()));
                xs.push(StructValueField { name: f.name.clone(), value: dec_ops(ctx, &f.inner, inner, st, d, bufs)? });
            }
            call!(DOp::FinishStruct);
            Value::Struct(xs)
        }
        Schema::Enum(vs) => {
            let o = match call!(DOp::Enum) {
                Res::Ord(o) => o,
                _ => unreachable!(),
            };
            if o >= vs.len() {
                return Err(Error::other("sim: library accepted an ordinal out of range"));
            }
            call!(DOp::Variant(vs[o].name.clone()));
            Value::Enum(EnumValue { variant_ord: o, variant_name: vs[o].name.clone(), value: Box::new(dec_ops(ctx, &vs[o].inner, inner, st, d, bufs)?) })
        }
        Schema::Recurse(_) => unreachable!(),
    })
}

/// serde wants 'static names; the library only holds them during the call.
fn st(s: &str) -> &'static str {
    unsafe { std::mem::transmute(s) }
}
fn sts<'x>(s: &'x [&'static str]) -> &'static [&'static str] {
    unsafe { std::mem::transmute(s) }
}

// ---- serde, writing ----

pub struct DynSer<'a> {
    pub ctx: &'a Ctx,
    pub s: &'a Schema,
    pub env: Option<&'a Env<'a, 'a>>,
    pub v: &'a Value,
}

struct Wrapped<'a, 'b>(&'b DynSer<'a>);
impl<'a, 'b> Serialize for Wrapped<'a, 'b> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.go(s)
    }
}

impl<'a> Serialize for DynSer<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.ctx.chance(1, 8) {
            s.serialize_newtype_struct("Newtype", &Wrapped(self))
        } else {
            self.go(s)
        }
    }
}

impl<'a> DynSer<'a> {
    fn go<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        use ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
        let ctx = self.ctx;
        let (s, env) = resolve(self.s, self.env).expect("legal");
        let here = Env { schema: s, up: env };
        let sub = |s, v| DynSer { ctx, s, env: Some(unsafe { std::mem::transmute::<&Env<'_, '_>, &Env<'_, '_>>(&here) }), v };
        macro_rules! elems {
            ($m:ident, $xs:expr) => {{
                let mut m = $m;
                for (s, x) in $xs {
                    m.serialize_element(&sub(s, x))?;
                }
                m.end()
            }};
        }
        macro_rules! fields {
            ($m:ident, $xs:expr) => {{
                let mut m = $m;
                for (s, x) in $xs {
                    m.serialize_field(&sub(s, x))?;
                }
                m.end()
            }};
        }
        // a sequence-like shape over (schema, value) pairs
        macro_rules! seq_like {
            ($xs:expr, $n:expr, $none_ok:expr) => {
                match ctx.draw(4) {
                    0 => {
                        let m = z.serialize_seq(Some($n))?;
                        elems!(m, $xs)
                    }
                    1 => {
                        let m = z.serialize_tuple($n)?;
                        elems!(m, $xs)
                    }
                    2 => {
                        let m = z.serialize_tuple_struct("T", $n)?;
                        fields!(m, $xs)
                    }
                    _ => {
                        let m = z.serialize_seq(if $none_ok { None } else { Some($n) })?;
                        elems!(m, $xs)
                    }
                }
            };
        }
        match (s, self.v) {
            (Schema::Scalar(_), Value::Scalar(v)) => match *v {
                ScalarValue::U8(n) => z.serialize_u8(n),
                ScalarValue::U16(n) => z.serialize_u16(n),
                ScalarValue::U32(n) => z.serialize_u32(n),
                ScalarValue::U64(n) => z.serialize_u64(n),
                ScalarValue::U128(n) => z.serialize_u128(n),
                ScalarValue::I8(n) => z.serialize_i8(n),
                ScalarValue::I16(n) => z.serialize_i16(n),
                ScalarValue::I32(n) => z.serialize_i32(n),
                ScalarValue::I64(n) => z.serialize_i64(n),
                ScalarValue::I128(n) => z.serialize_i128(n),
                ScalarValue::F32(n) => z.serialize_f32(n),
                ScalarValue::F64(n) => z.serialize_f64(n),
                ScalarValue::Char(n) => z.serialize_char(n),
                ScalarValue::Bool(n) => z.serialize_bool(n),
            },
            (Schema::Str, Value::Str(v)) => {
                if ctx.chance(1, 4) {
                    z.collect_str(v)
                } else {
                    z.serialize_str(v)
                }
            }
            (Schema::Bytes, Value::Bytes(v)) => z.serialize_bytes(v),
            (Schema::Unit, Value::Unit) => match ctx.draw(5) {
                0 => z.serialize_unit(),
                1 => z.serialize_unit_struct("U"),
                2 => z.serialize_tuple(0)?.end(),
                3 => z.serialize_seq(Some(0))?.end(),
                _ => z.serialize_tuple_struct("T", 0)?.end(),
            },
            (Schema::Option(_), Value::Option(None)) => z.serialize_none(),
            (Schema::Option(i), Value::Option(Some(v))) => z.serialize_some(&sub(i, v)),
            (Schema::Seq(SeqSchema { len: Some(n), inner }), Value::FixedLenSeq(xs)) => seq_like!(xs.iter().map(|x| (&**inner, x)), *n, true),
            (Schema::Seq(SeqSchema { len: None, inner }), Value::VarLenSeq(xs)) => {
                if let Schema::Tuple(kv) = &**inner {
                    if kv.len() == 2 && ctx.chance(1, 2) {
                        let pair = Env { schema: inner, up: Some(&here) };
                        let psub = |s, v| DynSer { ctx, s, env: Some(unsafe { std::mem::transmute::<&Env<'_, '_>, &Env<'_, '_>>(&pair) }), v };
                        let mut m = z.serialize_map(Some(xs.len()))?;
                        for x in xs {
                            let x = match x {
                                Value::Tuple(x) => x,
                                _ => unreachable!(),
                            };
                            if ctx.chance(1, 2) {
                                m.serialize_entry(&psub(&kv[0], &x[0]), &psub(&kv[1], &x[1]))?;
                            } else {
                                m.serialize_key(&psub(&kv[0], &x[0]))?;
                                m.serialize_value(&psub(&kv[1], &x[1]))?;
                            }
                        }
                        return m.end();
                    }
                }
                seq_like!(xs.iter().map(|x| (&**inner, x)), xs.len(), false)
            }
            (Schema::Tuple(ss), Value::Tuple(xs)) => seq_like!(ss.iter().zip(xs), xs.len(), true),
            (Schema::Struct(fs), Value::Struct(xs)) => {
                let mut m = z.serialize_struct("S", fs.len())?;
                for (f, x) in fs.iter().zip(xs) {
                    if matches!(x.value, Value::Option(None)) && ctx.chance(1, 2) {
                        m.skip_field(st(&f.name))?;
                    } else {
                        m.serialize_field(st(&f.name), &sub(&f.inner, &x.value))?;
                    }
                }
                m.end()
            }
            (Schema::Enum(vs), Value::Enum(e)) => {
                let o = e.variant_ord as u32;
                let name = st(&vs[e.variant_ord].name);
                let vi = &vs[e.variant_ord].inner;
                let (is, ienv) = resolve(vi, Some(&here)).expect("legal");
                let ihere = Env { schema: is, up: ienv };
                let isub = |s, v| DynSer { ctx, s, env: Some(unsafe { std::mem::transmute::<&Env<'_, '_>, &Env<'_, '_>>(&ihere) }), v };
                let plain = ctx.chance(1, 3);
                match (is, &*e.value) {
                    (Schema::Unit, _) if !plain => z.serialize_unit_variant("E", o, name),
                    (Schema::Tuple(ss), Value::Tuple(xs)) if !plain => {
                        let mut m = z.serialize_tuple_variant("E", o, name, xs.len())?;
                        for (s, x) in ss.iter().zip(xs) {
                            m.serialize_field(&isub(s, x))?;
                        }
                        m.end()
                    }
                    (Schema::Seq(q), Value::FixedLenSeq(xs) | Value::VarLenSeq(xs)) if !plain => {
                        let mut m = z.serialize_tuple_variant("E", o, name, xs.len())?;
                        for x in xs {
                            m.serialize_field(&isub(&q.inner, x))?;
                        }
                        m.end()
                    }
                    (Schema::Struct(fs), Value::Struct(xs)) if !plain => {
                        let mut m = z.serialize_struct_variant("E", o, name, xs.len())?;
                        for (f, x) in fs.iter().zip(xs) {
                            if matches!(x.value, Value::Option(None)) && ctx.chance(1, 2) {
                                m.skip_field(st(&f.name))?;
                            } else {
                                m.serialize_field(st(&f.name), &isub(&f.inner, &x.value))?;
                            }
                        }
                        m.end()
                    }
                    _ => z.serialize_newtype_variant("E", o, name, &sub(vi, &e.value)),
                }
            }
            (s, v) => panic!("sim: value {:?} does not conform to {:?}", v, s),
        }
    }
}

// ---- serde, reading ----

#[derive(Copy, Clone)]
pub struct DynDe<'a> {
    pub ctx: &'a Ctx,
    pub s: &'a Schema,
    pub env: Option<&'a Env<'a, 'a>>,
    /// use deserialize_any throughout
    pub any: bool,
    /// the schema is the one in force; if not, leave all checking to the library
    pub sure: bool,
}

struct Vis<'a> {
    ctx: &'a Ctx,
    s: &'a Schema,
    /// parent chain of `s`
    up: Option<&'a Env<'a, 'a>>,
    any: bool,
    sure: bool,
    /// seq-likes: read exactly as many elements as the schema says rather than until the end
    exact: bool,
    /// newtype wrapper
    again: Option<DynDe<'a>>,
}

impl<'a, 'de> DeserializeSeed<'de> for DynDe<'a> {
    type Value = Value;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        let ctx = self.ctx;
        let (s, up) = match resolve(self.s, self.env) {
            Some(x) => x,
            None => return d.deserialize_any(Vis { ctx, s: self.s, up: None, any: true, sure: self.sure, exact: false, again: None }),
        };
        let exact = ctx.chance(1, 2);
        let v = |exact| Vis { ctx, s, up, any: self.any, sure: self.sure, exact, again: None };
        if self.any {
            return d.deserialize_any(v(false));
        }
        if ctx.chance(1, 8) {
            return d.deserialize_newtype_struct("Newtype", Vis { ctx, s, up, any: false, sure: self.sure, exact: false, again: Some(self) });
        }
        if self.sure && ctx.chance(1, 6) {
            return d.deserialize_any(v(exact));
        }
        match s {
            Schema::Scalar(t) => match t {
                ScalarType::U8 => d.deserialize_u8(v(false)),
                ScalarType::U16 => d.deserialize_u16(v(false)),
                ScalarType::U32 => d.deserialize_u32(v(false)),
                ScalarType::U64 => d.deserialize_u64(v(false)),
                ScalarType::U128 => d.deserialize_u128(v(false)),
                ScalarType::I8 => d.deserialize_i8(v(false)),
                ScalarType::I16 => d.deserialize_i16(v(false)),
                ScalarType::I32 => d.deserialize_i32(v(false)),
                ScalarType::I64 => d.deserialize_i64(v(false)),
                ScalarType::I128 => d.deserialize_i128(v(false)),
                ScalarType::F32 => d.deserialize_f32(v(false)),
                ScalarType::F64 => d.deserialize_f64(v(false)),
                ScalarType::Char => d.deserialize_char(v(false)),
                ScalarType::Bool => d.deserialize_bool(v(false)),
            },
            Schema::Str => {
                if ctx.chance(1, 2) {
                    d.deserialize_str(v(false))
                } else {
                    d.deserialize_string(v(false))
                }
            }
            Schema::Bytes => {
                if ctx.chance(1, 2) {
                    d.deserialize_bytes(v(false))
                } else {
                    d.deserialize_byte_buf(v(false))
                }
            }
            Schema::Unit => match ctx.draw(5) {
                0 => d.deserialize_unit(v(false)),
                1 => d.deserialize_unit_struct("U", v(false)),
                2 => d.deserialize_tuple(0, v(exact)),
                3 => d.deserialize_seq(v(exact && self.sure)),
                _ => d.deserialize_tuple_struct("T", 0, v(exact)),
            },
            Schema::Option(_) => d.deserialize_option(v(false)),
            Schema::Seq(SeqSchema { len: Some(n), .. }) => match ctx.draw(3) {
                0 => d.deserialize_seq(v(exact && self.sure)),
                1 => d.deserialize_tuple(*n, v(exact)),
                _ => d.deserialize_tuple_struct("T", *n, v(exact)),
            },
            Schema::Seq(SeqSchema { len: None, inner }) => {
                if matches!(&**inner, Schema::Tuple(kv) if kv.len() == 2) && ctx.chance(1, 2) {
                    d.deserialize_map(v(false))
                } else {
                    d.deserialize_seq(v(false))
                }
            }
            Schema::Tuple(ss) => match ctx.draw(3) {
                0 => d.deserialize_seq(v(exact && self.sure)),
                1 => d.deserialize_tuple(ss.len(), v(exact)),
                _ => d.deserialize_tuple_struct("T", ss.len(), v(exact)),
            },
            Schema::Struct(fs) => {
                let names: Vec<&'static str> = fs.iter().map(|f| st(&f.name)).collect();
                d.deserialize_struct("S", sts(&names), v(exact))
            }
            Schema::Enum(vs) => {
                let names: Vec<&'static str> = vs.iter().map(|f| st(&f.name)).collect();
                d.deserialize_enum("E", sts(&names), v(false))
            }
            Schema::Recurse(_) => unreachable!(),
        }
    }
}

struct Ord_;
impl<'de> Visitor<'de> for Ord_ {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("an ordinal")
    }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<usize, E> {
        Ok(n as usize)
    }
}
impl<'de> DeserializeSeed<'de> for Ord_ {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        d.deserialize_identifier(self)
    }
}

impl<'a> Vis<'a> {
    fn scalar<E: de::Error>(self, t: ScalarType, v: ScalarValue) -> Result<Value, E> {
        if matches!(self.s, Schema::Scalar(u) if *u == t) {
            Ok(Value::Scalar(v))
        } else {
            Err(E::custom(format!("sim: visited {:?} for {:?}", t, self.s)))
        }
    }
    fn wrong<E: de::Error>(&self, what: &str) -> E {
        E::custom(format!("sim: visited {} for {:?}", what, self.s))
    }
}

macro_rules! scalars {
    ($($m:ident $t:ty, $v:ident;)*) => {$(
        fn $m<E: de::Error>(self, n: $t) -> Result<Value, E> {
            self.scalar(ScalarType::$v, ScalarValue::$v(n))
        }
    )*};
}

impl<'a, 'de> Visitor<'de> for Vis<'a> {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a value of the schema")
    }
    scalars! {
        visit_u8 u8, U8; visit_u16 u16, U16; visit_u32 u32, U32; visit_u64 u64, U64; visit_u128 u128, U128;
        visit_i8 i8, I8; visit_i16 i16, I16; visit_i32 i32, I32; visit_i64 i64, I64; visit_i128 i128, I128;
        visit_f32 f32, F32; visit_f64 f64, F64; visit_char char, Char; visit_bool bool, Bool;
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Value, E> {
        match self.s {
            Schema::Str => Ok(Value::Str(v.to_string())),
            _ => Err(self.wrong("a string")),
        }
    }
    fn visit_string<E: de::Error>(self, v: String) -> Result<Value, E> {
        match self.s {
            Schema::Str => Ok(Value::Str(v)),
            _ => Err(self.wrong("a string")),
        }
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Value, E> {
        match self.s {
            Schema::Bytes => Ok(Value::Bytes(v.to_vec())),
            _ => Err(self.wrong("bytes")),
        }
    }
    fn visit_byte_buf<E: de::Error>(self, v: Vec<u8>) -> Result<Value, E> {
        match self.s {
            Schema::Bytes => Ok(Value::Bytes(v)),
            _ => Err(self.wrong("bytes")),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<Value, E> {
        match self.s {
            Schema::Unit => Ok(Value::Unit),
            _ => Err(self.wrong("unit")),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Value, E> {
        match self.s {
            Schema::Option(_) => Ok(Value::Option(None)),
            _ => Err(self.wrong("none")),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        let here = Env { schema: self.s, up: self.up };
        match self.s {
            Schema::Option(i) => Ok(Value::Option(Some(Box::new(DynDe { ctx: self.ctx, s: i, env: Some(&here), any: self.any, sure: self.sure }.deserialize(d)?)))),
            _ => Err(self.wrong("some")),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        match self.again {
            Some(seed) => seed.deserialize(d),
            None => Err(self.wrong("newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let here = Env { schema: self.s, up: self.up };
        let seed = |s: &'a Schema| DynDe { ctx: self.ctx, s, env: Some(unsafe { std::mem::transmute::<&Env<'_, '_>, &'a Env<'a, 'a>>(&here) }), any: self.any, sure: self.sure };
        let mut xs = vec![];
        match self.s {
            Schema::Unit => {
                if !self.exact && a.next_element::<IgnoredAny>()?.is_some() {
                    return Err(de::Error::custom("sim: element in unit"));
                }
                Ok(Value::Unit)
            }
            Schema::Seq(SeqSchema { len: Some(n), inner }) if self.exact => {
                for _ in 0..*n {
                    match a.next_element_seed(seed(inner))? {
                        Some(x) => xs.push(x),
                        None => return Err(de::Error::custom("sim: sequence too short")),
                    }
                }
                Ok(Value::FixedLenSeq(xs))
            }
            Schema::Seq(SeqSchema { len, inner }) => {
                while let Some(x) = a.next_element_seed(seed(inner))? {
                    xs.push(x);
                }
                Ok(if len.is_some() { Value::FixedLenSeq(xs) } else { Value::VarLenSeq(xs) })
            }
            Schema::Tuple(ss) => {
                for s in ss {
                    match a.next_element_seed(seed(s))? {
                        Some(x) => xs.push(x),
                        None => return Err(de::Error::custom("sim: tuple too short")),
                    }
                }
                if !self.exact && a.next_element::<IgnoredAny>()?.is_some() {
                    return Err(de::Error::custom("sim: tuple too long"));
                }
                Ok(Value::Tuple(xs))
            }
            _ => Err(self.wrong("a sequence")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let here = Env { schema: self.s, up: self.up };
        match self.s {
            Schema::Struct(fs) => {
                let mut xs = vec![];
                let seed = |s: &'a Schema| DynDe { ctx: self.ctx, s, env: Some(unsafe { std::mem::transmute::<&Env<'_, '_>, &'a Env<'a, 'a>>(&here) }), any: self.any, sure: self.sure };
                for f in fs {
                    let k: String = match a.next_key()? {
                        Some(k) => k,
                        None => return Err(de::Error::custom("sim: struct too short")),
                    };
                    if k != f.name {
                        return Err(de::Error::custom(format!("sim: key {:?} for field {:?}", k, f.name)));
                    }
                    xs.push(StructValueField { name: k, value: a.next_value_seed(seed(&f.inner))? });
                }
                if !self.exact && a.next_key::<String>()?.is_some() {
                    return Err(de::Error::custom("sim: struct too long"));
                }
                Ok(Value::Struct(xs))
            }
            Schema::Seq(SeqSchema { len: None, inner }) => {
                let kv = match &**inner {
                    Schema::Tuple(kv) if kv.len() == 2 => kv,
                    _ => return Err(self.wrong("a map")),
                };
                let pair = Env { schema: inner, up: Some(&here) };
                let seed = |s: &'a Schema| DynDe { ctx: self.ctx, s, env: Some(unsafe { std::mem::transmute::<&Env<'_, '_>, &'a Env<'a, 'a>>(&pair) }), any: self.any, sure: self.sure };
                let mut xs = vec![];
                loop {
                    if self.ctx.chance(1, 2) {
                        match a.next_entry_seed(seed(&kv[0]), seed(&kv[1]))? {
                            Some((k, v)) => xs.push(Value::Tuple(vec![k, v])),
                            None => break,
                        }
                    } else {
                        let k = match a.next_key_seed(seed(&kv[0]))? {
                            Some(k) => k,
                            None => break,
                        };
                        let v = a.next_value_seed(seed(&kv[1]))?;
                        xs.push(Value::Tuple(vec![k, v]));
                    }
                }
                Ok(Value::VarLenSeq(xs))
            }
            _ => Err(self.wrong("a map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Value, A::Error> {
        let here = Env { schema: self.s, up: self.up };
        let vs = match self.s {
            Schema::Enum(vs) => vs,
            _ => return Err(self.wrong("an enum")),
        };
        let (o, va) = a.variant_seed(Ord_)?;
        if o >= vs.len() {
            return Err(de::Error::custom("sim: ordinal out of range"));
        }
        let ctx = self.ctx;
        let vi: &'a Schema = &vs[o].inner;
        let plain = DynDe { ctx, s: vi, env: Some(unsafe { std::mem::transmute::<&Env<'_, '_>, &'a Env<'a, 'a>>(&here) }), any: self.any, sure: self.sure };
        let value = match resolve(vi, plain.env) {
            Some((is, iup)) if !self.any && !ctx.chance(1, 3) => {
                let exact = ctx.chance(1, 2);
                let v = Vis { ctx, s: is, up: iup, any: false, sure: self.sure, exact, again: None };
                match is {
                    Schema::Unit => {
                        va.unit_variant()?;
                        Value::Unit
                    }
                    Schema::Tuple(ss) => va.tuple_variant(ss.len(), v)?,
                    Schema::Seq(SeqSchema { len: Some(n), .. }) => va.tuple_variant(*n, v)?,
                    Schema::Struct(fs) => {
                        let names: Vec<&'static str> = fs.iter().map(|f| st(&f.name)).collect();
                        va.struct_variant(sts(&names), v)?
                    }
                    _ => va.newtype_variant_seed(plain)?,
                }
            }
            _ => va.newtype_variant_seed(plain)?,
        };
        Ok(Value::Enum(EnumValue { variant_ord: o, variant_name: vs[o].name.clone(), value: Box::new(value) }))
    }
}

/// Kinds a rejected call may report.
pub fn is_rejection(e: &Error) -> bool {
    matches!(e.kind(), ErrorKind::SchemaNonConformance | ErrorKind::ApiUsage)
}

#[allow(dead_code)]
pub fn count_recreate(ctx: &Ctx) {
    ctx.count(K::Recreate);
}
