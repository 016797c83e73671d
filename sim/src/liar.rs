//! S17: hand-written `Serialize` and `Deserialize` implementations which break serde's rules: wrong announced
//! lengths, missing, extra, misplaced or misnamed parts, keys without values, errors swallowed, stopping early.
//!
//! Which of these calls the library accepts is its own business, except that it must never be fooled: nothing
//! but a message of the schema, made of the very parts it accepted, may ever come out complete.

use crate::ctx::{Ctx, Run, K};
use crate::gen::{self, SAFE};
use crate::model::{self, resolve, Bad, Env, Op};
use crate::must;
use crate::sess::{bad, clip};
use crate::paths::*;
use crate::stream::*;
use crate::worlds::{describe, end_state, Pool};
use binschema::error::{Error, ErrorKind};
use binschema::value::{ScalarValue, Value};
use binschema::{CoderState, Decoder, Encoder, ScalarType, Schema, SeqSchema};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::cell::{Cell, RefCell};
use std::fmt;

/// A part of a message that shows which it is: kind and bytes.
type Part = (u8, Vec<u8>);

fn scalar_part(v: ScalarValue) -> Part {
    let t = gen::SCALARS.iter().position(|t| *t == model::scalar_type(v)).unwrap() as u8;
    (t, model::scalar_bytes(v))
}
fn str_part(s: &str) -> Part {
    (100, s.as_bytes().to_vec())
}
fn bytes_part(s: &[u8]) -> Part {
    (101, s.to_vec())
}
const NONE: u8 = 102;
const SOME: u8 = 103;
const ORD: u8 = 104;
/// Any number of parts.
const IGNORED: u8 = 200;
fn ord_part(o: usize) -> Part {
    (ORD, (o as u64).to_le_bytes().to_vec())
}

fn parts(s: &Schema, v: &Value) -> Vec<Part> {
    model::flatten(s, v)
        .into_iter()
        .filter_map(|(op, _)| {
            Some(match op {
                Op::Scalar(x) => scalar_part(x),
                Op::Str(x) => str_part(&x),
                Op::Bytes(x) => bytes_part(&x),
                Op::None_ => (NONE, vec![]),
                Op::Some_ => (SOME, vec![]),
                Op::Enum(o, _) => ord_part(o),
                _ => return None,
            })
        })
        .collect()
}

/// What the library has accepted, in order; some of it only perhaps.
#[derive(Default)]
struct Log {
    parts: RefCell<Vec<(bool, Part)>>,
    /// lies still to be told
    lies: Cell<u32>,
    told: Cell<u32>,
    /// errors not passed on
    deaf: Cell<u32>,
    /// inside what may be just a name
    doubt: Cell<u32>,
}

impl Log {
    fn sure(&self, p: Part) {
        self.parts.borrow_mut().push((self.doubt.get() == 0, p));
    }
    fn perhaps(&self, p: Part) {
        self.parts.borrow_mut().push((false, p));
    }
    /// Is it time for a lie?
    fn lie(&self, ctx: &Ctx, den: u64) -> bool {
        if self.lies.get() > 0 && ctx.chance(1, den) {
            self.lies.set(self.lies.get() - 1);
            self.told.set(self.told.get() + 1);
            ctx.count(K::Misuse);
            true
        } else {
            false
        }
    }
    /// Can what was accepted make up all of `want`, or (not `whole`) the start of it? Ordinals of `want` may go
    /// `unseen`.
    fn matches(&self, want: &[Part], whole: bool, unseen: bool) -> bool {
        let over = |at: &mut Vec<usize>| {
            let mut i = 0;
            while unseen && i < at.len() {
                if want.get(at[i]).map_or(false, |p| p.0 == ORD) && !at.contains(&(at[i] + 1)) {
                    at.push(at[i] + 1);
                }
                i += 1;
            }
            at.sort();
            at.dedup();
        };
        let mut at = vec![0usize];
        over(&mut at);
        for (sure, p) in self.parts.borrow().iter() {
            if p.0 == IGNORED {
                at = (at.iter().min().copied().unwrap_or(want.len() + 1)..=want.len()).collect();
                continue;
            }
            let mut next: Vec<usize> = at.iter().filter(|i| want.get(**i) == Some(p)).map(|i| i + 1).collect();
            if !sure {
                next.extend(&at);
            }
            at = next;
            over(&mut at);
        }
        if whole {
            at.contains(&want.len())
        } else {
            !at.is_empty()
        }
    }
    fn text(&self) -> String {
        format!("{:?}", self.parts.borrow())
    }
}

// ---- writing ----

#[derive(Copy, Clone)]
struct Ser<'a> {
    ctx: &'a Ctx,
    log: &'a Log,
    s: &'a Schema,
    env: Option<&'a Env<'a, 'a>>,
    v: &'a Value,
}

impl<'a> Serialize for Ser<'a> {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        let ctx = self.ctx;
        if self.log.lie(ctx, 10) {
            return match ctx.draw(4) {
                0 => Err(ser::Error::custom("sim: no longer wanted")),
                1 => {
                    // something else altogether
                    let s = gen::schema(ctx, gen::Opts { depth: 2, big_enums: false, ..SAFE });
                    let v = gen::value_fuel(ctx, &s, 6);
                    Ser { ctx, log: self.log, s: &s, env: None, v: &v }.go(z)
                }
                2 => z.serialize_some(&Then(self, Some((SOME, vec![])))),
                _ => {
                    let o = ctx.below(4);
                    z.serialize_newtype_variant("E", o as u32, "a", &Then(self, Some(ord_part(o))))
                }
            };
        }
        if ctx.chance(1, 10) {
            return z.serialize_newtype_struct("N", &Then(self, None));
        }
        self.go(z)
    }
}

/// Notes the part which is accepted by the time the inside is asked for.
struct Then<'a, 'b>(&'b Ser<'a>, Option<Part>);
impl<'a, 'b> Serialize for Then<'a, 'b> {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        if let Some(p) = &self.1 {
            self.0.log.sure(p.clone());
        }
        self.0.go(z)
    }
}

struct InVariant<'a, 'b>(&'b Ser<'a>, usize);
impl<'a, 'b> Serialize for InVariant<'a, 'b> {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        self.0.log.sure(ord_part(self.1));
        self.0.serialize(z)
    }
}

fn st(s: &str) -> &'static str {
    unsafe { std::mem::transmute(s) }
}

impl<'a> Ser<'a> {
    /// How many elements to announce.
    fn claim(&self, n: usize) -> usize {
        match self.log.lie(self.ctx, 12) {
            true => *self.ctx.pick(&[n + 1, n.saturating_sub(1), 0, n + 2, usize::MAX]),
            false => n,
        }
    }

    fn go<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        use ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
        let (ctx, log) = (self.ctx, self.log);
        let (s, env) = resolve(self.s, self.env).expect("legal");
        let here = Env { schema: s, up: env };
        let here: &Env<'_, '_> = unsafe { std::mem::transmute::<&Env<'_, '_>, &Env<'_, '_>>(&here) };
        let sub = |s: &'a Schema, v: &'a Value| Ser { ctx, log, s, env: Some(unsafe { std::mem::transmute::<&Env<'_, '_>, &'a Env<'a, 'a>>(here) }), v };
        macro_rules! leaf {
            ($part:expr, $call:expr) => {{
                let r = $call;
                if r.is_ok() {
                    log.sure($part);
                }
                r
            }};
        }
        // parts in order but for lies: left out, twice, exchanged with the next, and errors let pass
        macro_rules! each {
            ($xs:expr, $put:expr) => {{
                let xs: Vec<_> = $xs;
                let mut i = 0;
                while i < xs.len() {
                    let mut k = i;
                    let mut again = 1;
                    let mut deaf = false;
                    if log.lie(ctx, 12) {
                        match ctx.draw(5) {
                            0 => again = 0,
                            1 => again = 2,
                            2 => k = (i + 1) % xs.len(),
                            3 => break,
                            _ => deaf = true,
                        }
                    }
                    for _ in 0..again {
                        let r = $put(&xs[k], k);
                        // having lied, one may as well not listen
                        if r.is_err() {
                            if !deaf && !(log.told.get() > 0 && ctx.chance(1, 3)) {
                                r?;
                            }
                            log.deaf.set(log.deaf.get() + 1);
                        }
                    }
                    i += 1;
                }
                if log.lie(ctx, 16) && !xs.is_empty() {
                    let k = ctx.below(xs.len());
                    let r = $put(&xs[k], k);
                    if r.is_err() {
                        if ctx.chance(1, 2) {
                            r?;
                        }
                        log.deaf.set(log.deaf.get() + 1);
                    }
                }
            }};
        }
        match (s, self.v) {
            (Schema::Scalar(_), &Value::Scalar(v)) => leaf!(
                scalar_part(v),
                match v {
                    ScalarValue::U8(n) => z.serialize_u8(n),
                    ScalarValue::U16(n) => z.serialize_u16(n),
                    ScalarValue::U32(n) => z.serialize_u32(n),
                    ScalarValue::U64(n) => z.serialize_u64(n),
                    ScalarValue::U128(n) => z.serialize_u128(n),
                    ScalarValue::I8(n) => z.serialize_i8(n),
                    ScalarValue::I16(n) => z.serialize_i16(n),
                    ScalarValue::I32(n) => z.serialize_i32(n),
                    ScalarValue::I64(n) => z.serialize_i64(n),
                    ScalarValue::I128(n) => z.serialize_i128(n),
                    ScalarValue::F32(n) => z.serialize_f32(n),
                    ScalarValue::F64(n) => z.serialize_f64(n),
                    ScalarValue::Char(n) => z.serialize_char(n),
                    ScalarValue::Bool(n) => z.serialize_bool(n),
                }
            ),
            (Schema::Str, Value::Str(v)) => leaf!(str_part(v), z.serialize_str(v)),
            (Schema::Bytes, Value::Bytes(v)) => leaf!(bytes_part(v), z.serialize_bytes(v)),
            (Schema::Unit, Value::Unit) => match ctx.draw(3) {
                0 => z.serialize_unit(),
                1 => z.serialize_unit_struct("U"),
                _ => z.serialize_tuple(self.claim(0))?.end(),
            },
            (Schema::Option(_), Value::Option(None)) => leaf!((NONE, vec![]), z.serialize_none()),
            (Schema::Option(i), Value::Option(Some(v))) => {
                let inner = sub(i, v);
                z.serialize_some(&Then(&inner, Some((SOME, vec![]))))
            }
            (Schema::Seq(SeqSchema { inner, len }), Value::FixedLenSeq(xs) | Value::VarLenSeq(xs)) => {
                let n = self.claim(xs.len());
                let var = len.is_none() != log.lie(ctx, 20);
                if let (Schema::Tuple(kv), true, 0 | 1) = (&**inner, var, ctx.draw(3)) {
                    if kv.len() == 2 {
                        let pair = Env { schema: inner, up: Some(here) };
                        let psub = |s: &'a Schema, v: &'a Value| Ser { ctx, log, s, env: Some(unsafe { std::mem::transmute::<&Env<'_, '_>, &'a Env<'a, 'a>>(&pair) }), v };
                        let mut m = z.serialize_map(if log.lie(ctx, 30) { None } else { Some(n) })?;
                        let mut halves = vec![];
                        for x in xs {
                            if let Value::Tuple(x) = x {
                                halves.push((0, psub(&kv[0], &x[0])));
                                halves.push((1, psub(&kv[1], &x[1])));
                            }
                        }
                        each!(halves, |h: &(i32, Ser<'a>), _| if h.0 == 0 { m.serialize_key(&h.1) } else { m.serialize_value(&h.1) });
                        return m.end();
                    }
                }
                let xs: Vec<Ser<'a>> = xs.iter().map(|x| sub(inner, x)).collect();
                match ctx.draw(2) {
                    _ if var => {
                        let mut m = z.serialize_seq(if log.lie(ctx, 30) { None } else { Some(n) })?;
                        each!(xs, |x: &Ser<'a>, _| m.serialize_element(x));
                        m.end()
                    }
                    0 => {
                        let mut m = z.serialize_tuple(n)?;
                        each!(xs, |x: &Ser<'a>, _| m.serialize_element(x));
                        m.end()
                    }
                    _ => {
                        let mut m = z.serialize_tuple_struct("T", n)?;
                        each!(xs, |x: &Ser<'a>, _| m.serialize_field(x));
                        m.end()
                    }
                }
            }
            (Schema::Tuple(ss), Value::Tuple(xs)) => {
                let n = self.claim(xs.len());
                let xs: Vec<Ser<'a>> = ss.iter().zip(xs).map(|(s, x)| sub(s, x)).collect();
                if ctx.chance(1, 2) {
                    let mut m = z.serialize_tuple(n)?;
                    each!(xs, |x: &Ser<'a>, _| m.serialize_element(x));
                    m.end()
                } else {
                    let mut m = z.serialize_tuple_struct("T", n)?;
                    each!(xs, |x: &Ser<'a>, _| m.serialize_field(x));
                    m.end()
                }
            }
            (Schema::Struct(fs), Value::Struct(xs)) => {
                let mut m = z.serialize_struct("S", self.claim(fs.len()))?;
                let ys: Vec<(&'static str, Ser<'a>)> = fs.iter().zip(xs).map(|(f, x)| (st(&f.name), sub(&f.inner, &x.value))).collect();
                each!(ys, |y: &(&'static str, Ser<'a>), k: usize| {
                    let name = if log.lie(ctx, 16) { ys_name(ctx, fs, k) } else { y.0 };
                    if matches!(y.1.v, Value::Option(None)) && ctx.chance(1, 3) || log.lie(ctx, 30) {
                        let r = m.skip_field(name);
                        if r.is_ok() {
                            log.sure((NONE, vec![]));
                        }
                        r
                    } else {
                        m.serialize_field(name, &y.1)
                    }
                });
                m.end()
            }
            (Schema::Enum(vs), Value::Enum(e)) => {
                let mut o = e.variant_ord;
                let mut name = st(&vs[o].name);
                if log.lie(ctx, 10) {
                    match ctx.draw(3) {
                        0 => o = *ctx.pick(&[o + 1, vs.len(), vs.len() + 255, u32::MAX as usize, o.wrapping_sub(1) & 0xFFFF]),
                        1 => name = st(&vs[ctx.below(vs.len())].name),
                        _ => {
                            o = ctx.below(vs.len());
                            name = st(&vs[o].name);
                        }
                    }
                }
                let o = o.min(u32::MAX as usize);
                let vi = &vs[e.variant_ord].inner;
                let inner = sub(vi, &e.value);
                let (is, ienv) = resolve(vi, inner.env).expect("legal");
                let ihere = Env { schema: is, up: ienv };
                let isub = |s: &'a Schema, v: &'a Value| Ser { ctx, log, s, env: Some(unsafe { std::mem::transmute::<&Env<'_, '_>, &'a Env<'a, 'a>>(&ihere) }), v };
                let as_is = !log.lie(ctx, 10);
                macro_rules! begun {
                    ($r:expr) => {{
                        let r = $r;
                        match &r {
                            Ok(_) => log.sure(ord_part(o)),
                            Err(_) => log.perhaps(ord_part(o)),
                        }
                        r?
                    }};
                }
                match (is, &*e.value) {
                    (Schema::Tuple(ss), Value::Tuple(xs)) if as_is && ctx.chance(2, 3) => {
                        let mut m = begun!(z.serialize_tuple_variant("E", o as u32, name, self.claim(xs.len())));
                        let xs: Vec<Ser<'a>> = ss.iter().zip(xs).map(|(s, x)| isub(unsafe { std::mem::transmute(s) }, x)).collect();
                        each!(xs, |x: &Ser<'a>, _| m.serialize_field(x));
                        m.end()
                    }
                    (Schema::Struct(fs), Value::Struct(xs)) if as_is && ctx.chance(2, 3) => {
                        let mut m = begun!(z.serialize_struct_variant("E", o as u32, name, self.claim(xs.len())));
                        let ys: Vec<(&'static str, Ser<'a>)> = fs.iter().zip(xs).map(|(f, x)| (st(&f.name), isub(unsafe { std::mem::transmute(&f.inner) }, &x.value))).collect();
                        each!(ys, |y: &(&'static str, Ser<'a>), _| m.serialize_field(y.0, &y.1));
                        m.end()
                    }
                    (is, _) if matches!(is, Schema::Unit) == as_is => {
                        let r = z.serialize_unit_variant("E", o as u32, name);
                        match &r {
                            Ok(_) => log.sure(ord_part(o)),
                            Err(_) => log.perhaps(ord_part(o)),
                        }
                        r
                    }
                    _ => z.serialize_newtype_variant("E", o as u32, name, &InVariant(&inner, o)),
                }
            }
            (s, v) => panic!("sim: value {:?} does not conform to {:?}", v, s),
        }
    }
}

fn ys_name(ctx: &Ctx, fs: &[binschema::StructSchemaField], k: usize) -> &'static str {
    match ctx.draw(3) {
        0 => st(&fs[ctx.below(fs.len())].name),
        1 => "",
        _ => {
            let n = st(&fs[k].name);
            n.char_indices().next_back().map_or("x", |(i, _)| &n[..i])
        }
    }
}

fn draw(ctx: &Ctx) -> Option<(Schema, Value)> {
    let mut o = SAFE;
    o.big_enums = ctx.chance(1, 8);
    o.depth = *ctx.pick(&[4, 1, 2, 6]);
    let s = gen::schema(ctx, o);
    if !gen::plausible(&s) || matches!(s, Schema::Recurse(_)) {
        return None;
    }
    let v = gen::value_fuel(ctx, &s, *ctx.pick(&[6i64, 20, 60]));
    describe(ctx, &s, Some(&v));
    Some((s, v))
}

fn empty_enum(s: &Schema) -> bool {
    let mut any = false;
    gen::walk(s, 0, &mut |s, _| any |= matches!(s, Schema::Enum(v) if v.is_empty()));
    any
}

fn fair_kind(what: &str, failed: bool, e: &Error) -> Run {
    must!(
        matches!(e.kind(), ErrorKind::SchemaNonConformance | ErrorKind::ApiUsage | ErrorKind::Other) || (failed && e.kind() == ErrorKind::Io),
        "refusal-kind",
        "{}: refused as {:?}: {}",
        what,
        e.kind(),
        e.inner()
    );
    Ok(())
}

fn write(ctx: &Ctx) -> Run {
    let (s, v) = match draw(ctx) {
        Some(x) => x,
        None => return Ok(()),
    };
    let log = Log::default();
    log.lies.set(*ctx.pick(&[1u32, 2, 4, 8]));
    let mut pool = Pool(vec![]);
    let mut st = CoderState::new(&s, pool.take(ctx), None);
    let mut w = SimWriter::new(ctx, 0, Manner::draw(ctx));
    if ctx.chance(1, 8) {
        w.fault = Some(draw_fault(ctx, WRITE_FKS, ctx.below(40)));
    }
    let closed = !empty_enum(&s);
    let turns = *ctx.pick(&[1u64, 1, 2, 4]);
    for turn in 0..turns {
        let told = log.told.get();
        ctx.call();
        let was = st.is_finished();
        let r = Ser { ctx, log: &log, s: &s, env: None, v: &v }.serialize(&mut Encoder::new(&mut st, &mut w));
        ctx.ev(130, turn, r.is_ok() as u64, || format!("serialize, turn {}, {} lies told -> {}", turn, log.told.get() - told, r.as_ref().err().map_or("ok".into(), |e| format!("{:?}: {}", e.kind(), e.inner()))));
        let fin = st.is_finished();
        match &r {
            Ok(()) => must!(fin && !was || turn > 0 || log.deaf.get() > 0, "unfinished", "turn {}: all of a value was accepted, but finished = {} (before: {})", turn, fin, was),
            Err(e) => fair_kind("serialize", w.failed, e)?,
        }
        must!(!(was && !fin), "unfinished", "a finished coder is no longer finished");
        if turn == 0 && log.told.get() == 0 && !w.failed {
            must!(r.is_ok(), "conforming-refused", "an honest value was refused: {:?}", r.err().map(|e| e.inner().to_string()));
        }
        end_state(&st, fin)?;
        if fin {
            must!(!w.failed, "failure-hidden", "finished although the stream failed");
            let (got, n) = model::decode(&s, &w.sink);
            match got {
                Ok(got) if n == w.sink.len() => {
                    must!(log.matches(&parts(&s, &got), true, false), "parts", "{:02x?} is {}, but the parts accepted are {}", clip(&w.sink), short(&format!("{:?}", got)), short(&log.text()));
                    if log.told.get() > 0 {
                        ctx.count(K::PLiesPassed);
                    }
                }
                got => return bad("false-completion", format!("finished, but {:02x?} is {} ({} of {} bytes), from parts {}", clip(&w.sink), short(&format!("{:?}", got)), n, w.sink.len(), short(&log.text()))),
            }
            if ctx.chance(1, 2) {
                break;
            }
        } else if closed {
            match model::decode(&s, &w.sink) {
                (Err(b @ (Bad::Malformed | Bad::Illegal)), _) => return bad("prefix", format!("{:02x?} was written, which is {:?}; parts {}", clip(&w.sink), b, short(&log.text()))),
                (Ok(_), n) => must!(n == w.sink.len(), "prefix", "{:02x?} was written, more than a message; parts {}", clip(&w.sink), short(&log.text())),
                _ => {}
            }
        }
    }
    pool.give(ctx, st);
    Ok(())
}

// ---- reading ----

#[derive(Copy, Clone)]
struct De<'a> {
    ctx: &'a Ctx,
    log: &'a Log,
    s: &'a Schema,
    env: Option<&'a Env<'a, 'a>>,
}

/// Accepts whatever it is given.
#[derive(Copy, Clone)]
struct Vis<'a> {
    ctx: &'a Ctx,
    log: &'a Log,
    s: &'a Schema,
    up: Option<&'a Env<'a, 'a>>,
}

impl<'a, 'de> DeserializeSeed<'de> for De<'a> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let (ctx, log) = (self.ctx, self.log);
        let other;
        let (mut s, mut up) = resolve(self.s, self.env).expect("legal");
        if log.lie(ctx, 10) {
            match ctx.draw(3) {
                0 => return Err(de::Error::custom("sim: no longer wanted")),
                1 => {
                    other = gen::schema(ctx, gen::Opts { depth: 2, big_enums: false, ..SAFE });
                    s = unsafe { std::mem::transmute(&other) };
                    up = None;
                    if matches!(s, Schema::Recurse(_)) {
                        return Ok(());
                    }
                }
                // not even looked at
                _ => return Ok(()),
            }
        }
        let v = Vis { ctx, log, s, up };
        let len = |n: usize| match log.lie(ctx, 12) {
            true => *ctx.pick(&[n + 1, n.saturating_sub(1), 0, usize::MAX]),
            false => n,
        };
        if ctx.chance(1, 8) {
            return d.deserialize_any(v);
        }
        if ctx.chance(1, 20) {
            // what it is shown, if anything, is of no importance
            log.doubt.set(log.doubt.get() + 1);
            let r = d.deserialize_ignored_any(v);
            log.doubt.set(log.doubt.get() - 1);
            log.parts.borrow_mut().push((true, (IGNORED, vec![])));
            return r;
        }
        if ctx.chance(1, 10) {
            return d.deserialize_newtype_struct("N", v);
        }
        match s {
            Schema::Scalar(t) => match t {
                ScalarType::U8 => d.deserialize_u8(v),
                ScalarType::U16 => d.deserialize_u16(v),
                ScalarType::U32 => d.deserialize_u32(v),
                ScalarType::U64 => d.deserialize_u64(v),
                ScalarType::U128 => d.deserialize_u128(v),
                ScalarType::I8 => d.deserialize_i8(v),
                ScalarType::I16 => d.deserialize_i16(v),
                ScalarType::I32 => d.deserialize_i32(v),
                ScalarType::I64 => d.deserialize_i64(v),
                ScalarType::I128 => d.deserialize_i128(v),
                ScalarType::F32 => d.deserialize_f32(v),
                ScalarType::F64 => d.deserialize_f64(v),
                ScalarType::Char => d.deserialize_char(v),
                ScalarType::Bool => d.deserialize_bool(v),
            },
            Schema::Str => d.deserialize_string(v),
            Schema::Bytes => d.deserialize_bytes(v),
            Schema::Unit => d.deserialize_unit(v),
            Schema::Option(_) => d.deserialize_option(v),
            Schema::Seq(SeqSchema { len: Some(n), .. }) => d.deserialize_tuple(len(*n), v),
            Schema::Seq(SeqSchema { len: None, inner }) => {
                if matches!(&**inner, Schema::Tuple(kv) if kv.len() == 2) && ctx.chance(1, 2) {
                    d.deserialize_map(v)
                } else {
                    d.deserialize_seq(v)
                }
            }
            Schema::Tuple(ss) => {
                if ctx.chance(1, 2) {
                    d.deserialize_tuple(len(ss.len()), v)
                } else {
                    d.deserialize_tuple_struct("T", len(ss.len()), v)
                }
            }
            Schema::Struct(fs) => {
                let names = twist(ctx, log, fs.iter().map(|f| st(&f.name)).collect());
                d.deserialize_struct("S", unsafe { std::mem::transmute::<&[&'static str], &'static [&'static str]>(&names) }, v)
            }
            Schema::Enum(vs) => {
                let names = twist(ctx, log, vs.iter().map(|f| st(&f.name)).collect());
                d.deserialize_enum("E", unsafe { std::mem::transmute::<&[&'static str], &'static [&'static str]>(&names) }, v)
            }
            Schema::Recurse(_) => unreachable!(),
        }
    }
}

/// The names of a type, or not quite.
fn twist(ctx: &Ctx, log: &Log, mut names: Vec<&'static str>) -> Vec<&'static str> {
    if log.lie(ctx, 10) && !names.is_empty() {
        let i = ctx.below(names.len());
        match ctx.draw(4) {
            0 => {
                names.remove(i);
            }
            1 => names.push("more"),
            2 => names[i] = "",
            _ => names.swap(i, 0),
        }
    }
    names
}

struct Name;
impl<'de> Visitor<'de> for Name {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a name or an ordinal")
    }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<Option<usize>, E> {
        Ok(Some(n as usize))
    }
    fn visit_str<E: de::Error>(self, _: &str) -> Result<Option<usize>, E> {
        Ok(None)
    }
}
impl<'de> DeserializeSeed<'de> for Name {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}

macro_rules! visits {
    ($($m:ident $t:ty, $v:ident;)*) => {$(
        fn $m<E: de::Error>(self, n: $t) -> Result<(), E> {
            self.log.sure(scalar_part(ScalarValue::$v(n)));
            self.done()
        }
    )*};
}

impl<'a> Vis<'a> {
    fn done<E: de::Error>(self) -> Result<(), E> {
        if self.log.lie(self.ctx, 20) {
            return Err(de::Error::custom("sim: on second thoughts"));
        }
        Ok(())
    }
    /// Is an error to be passed on?
    fn minds(&self) -> bool {
        !(self.log.told.get() > 0 && self.ctx.chance(1, 3))
    }
    /// The schema of a part, as far as this end has one.
    fn part(&self, here: &'a Env<'a, 'a>, i: usize) -> De<'a> {
        let s = match self.s {
            Schema::Seq(q) => Some(&*q.inner),
            Schema::Tuple(ss) => ss.get(i),
            Schema::Struct(fs) => fs.get(i).map(|f| &f.inner),
            Schema::Enum(vs) => vs.get(i).map(|f| &f.inner),
            Schema::Option(i) => Some(&**i),
            _ => None,
        };
        match s {
            Some(s) if resolve(s, Some(here)).is_some() => De { ctx: self.ctx, log: self.log, s, env: Some(here) },
            _ => De { ctx: self.ctx, log: self.log, s: &Schema::Unit, env: None },
        }
    }
}

impl<'a, 'de> Visitor<'de> for Vis<'a> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    visits! {
        visit_u8 u8, U8; visit_u16 u16, U16; visit_u32 u32, U32; visit_u64 u64, U64; visit_u128 u128, U128;
        visit_i8 i8, I8; visit_i16 i16, I16; visit_i32 i32, I32; visit_i64 i64, I64; visit_i128 i128, I128;
        visit_f32 f32, F32; visit_f64 f64, F64; visit_char char, Char; visit_bool bool, Bool;
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<(), E> {
        self.log.sure(str_part(v));
        self.done()
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<(), E> {
        self.log.sure(bytes_part(v));
        self.done()
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        self.done()
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        self.log.sure((NONE, vec![]));
        self.done()
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.log.sure((SOME, vec![]));
        let here = Env { schema: self.s, up: self.up };
        self.part(unsafe { std::mem::transmute::<&Env<'_, '_>, &'a Env<'a, 'a>>(&here) }, 0).deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        De { ctx: self.ctx, log: self.log, s: self.s, env: self.up }.deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let here = Env { schema: self.s, up: self.up };
        let here = unsafe { std::mem::transmute::<&Env<'_, '_>, &'a Env<'a, 'a>>(&here) };
        let mut more = 0;
        for i in 0.. {
            if self.log.lie(self.ctx, 12) {
                break;
            }
            match a.next_element_seed(self.part(here, i)) {
                Ok(Some(())) => {}
                Ok(None) => {
                    if more == 0 && !self.log.lie(self.ctx, 4) {
                        break;
                    }
                    more += 1;
                }
                Err(e) if self.minds() => return Err(e),
                Err(_) => more += 1,
            }
            if more > 3 {
                break;
            }
        }
        self.done()
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let here = Env { schema: self.s, up: self.up };
        let here = unsafe { std::mem::transmute::<&Env<'_, '_>, &'a Env<'a, 'a>>(&here) };
        let pair_at;
        let mut pair = None;
        if let Schema::Seq(q) = self.s {
            pair_at = Env { schema: &q.inner, up: Some(here) };
            pair = Some(unsafe { std::mem::transmute::<&Env<'_, '_>, &'a Env<'a, 'a>>(&pair_at) });
        }
        let mut more = 0;
        let half = |k: usize, i: usize| match pair.map(|p| (p, p.schema)) {
            Some((p, Schema::Tuple(kv))) => match kv.get(k) {
                Some(s) => De { ctx: self.ctx, log: self.log, s, env: Some(p) },
                None => De { ctx: self.ctx, log: self.log, s: &Schema::Unit, env: None },
            },
            _ => self.part(here, i),
        };
        for i in 0.. {
            let mut twice = [1, 1];
            if self.log.lie(self.ctx, 12) {
                match self.ctx.draw(5) {
                    0 => break,
                    1 => twice = [2, 1],
                    2 => twice = [0, 1],
                    3 => twice = [1, 0],
                    _ => twice = [1, 2],
                }
            }
            let mut end = false;
            for _ in 0..twice[0] {
                let doubt = (self.log.told.get() > 0) as u32;
                self.log.doubt.set(self.log.doubt.get() + doubt);
                let r = if pair.is_some() { a.next_key_seed(half(0, i)).map(|x| x.is_some()) } else { a.next_key_seed(Name).map(|x| x.is_some()) };
                self.log.doubt.set(self.log.doubt.get() - doubt);
                match r {
                    Ok(true) => {}
                    Ok(false) => end = true,
                    Err(e) if self.minds() => return Err(e),
                    Err(_) => more += 1,
                }
            }
            if end && !(more == 0 && self.log.lie(self.ctx, 4)) {
                break;
            }
            more += end as u32;
            for _ in 0..twice[1] {
                match a.next_value_seed(half(1, i)) {
                    Ok(()) => {}
                    Err(e) if self.minds() => return Err(e),
                    Err(_) => more += 1,
                }
            }
            if more > 3 {
                break;
            }
        }
        self.done()
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let ctx = self.ctx;
        let here = Env { schema: self.s, up: self.up };
        let here = unsafe { std::mem::transmute::<&Env<'_, '_>, &'a Env<'a, 'a>>(&here) };
        if self.log.lie(ctx, 20) {
            return Ok(());
        }
        let (o, va) = a.variant_seed(Name)?;
        let o = match o {
            Some(o) => o,
            None => return Err(de::Error::custom("sim: variant by name")),
        };
        self.log.sure(ord_part(o));
        let inner = self.part(here, o);
        let (is, iup) = resolve(inner.s, inner.env).expect("legal");
        let v = Vis { ctx, log: self.log, s: is, up: iup };
        match if self.log.lie(ctx, 8) { ctx.draw(5) } else { 9 } {
            0 => va.unit_variant(),
            1 => va.tuple_variant(*ctx.pick(&[0usize, 1, 2, usize::MAX]), v),
            2 => va.struct_variant(&["a", "b"], v),
            3 => Ok(drop(va)),
            4 => va.newtype_variant_seed(De { ctx, log: self.log, s: &Schema::Str, env: None }),
            _ => match is {
                Schema::Unit if ctx.chance(2, 3) => va.unit_variant(),
                Schema::Tuple(ss) if ctx.chance(2, 3) => va.tuple_variant(ss.len(), v),
                Schema::Struct(fs) if ctx.chance(2, 3) => {
                    let names = twist(ctx, self.log, fs.iter().map(|f| st(&f.name)).collect());
                    va.struct_variant(unsafe { std::mem::transmute::<&[&'static str], &'static [&'static str]>(&names) }, v)
                }
                _ => va.newtype_variant_seed(inner),
            },
        }
    }
}

fn read(ctx: &Ctx) -> Run {
    let (s, v) = match draw(ctx) {
        Some(x) => x,
        None => return Ok(()),
    };
    let log = Log::default();
    log.lies.set(*ctx.pick(&[1u32, 2, 4, 8]));
    let mut data = model::encode(&s, &v);
    let n = data.len();
    // what follows is not this message's
    data.extend((0..ctx.below(24)).map(|i| [0u8, 1, 2, 0x80][i % 4]));
    let want = parts(&s, &v);
    let mut pool = Pool(vec![]);
    let mut st = CoderState::new(&s, pool.take(ctx), None);
    let mut r = SimReader::new(ctx, 1, data, Manner::draw(ctx));
    if n > 0 && ctx.chance(1, 8) {
        r.fault = Some(draw_fault(ctx, READ_FKS, ctx.below(n)));
    }
    let turns = *ctx.pick(&[1u64, 1, 2, 4]);
    for turn in 0..turns {
        let told = log.told.get();
        ctx.call();
        let was = st.is_finished();
        let e = De { ctx, log: &log, s: &s, env: None }.deserialize(&mut Decoder::new(&mut st, &mut r)).err();
        let fin = st.is_finished();
        ctx.ev(131, turn, e.is_none() as u64, || format!("deserialize, turn {}, {} lies told -> {}", turn, log.told.get() - told, e.as_ref().map_or("ok".into(), |e| format!("{:?}: {}", e.kind(), e.inner()))));
        if let Some(e) = &e {
            fair_kind("deserialize", r.failed, e)?;
        }
        must!(!(was && !fin), "unfinished", "a finished coder is no longer finished");
        if turn == 0 && log.told.get() == 0 && !r.failed {
            must!(e.is_none() && fin, "conforming-refused", "an honest reader was refused: {:?}, finished = {}", e.map(|e| e.inner().to_string()), fin);
        }
        end_state(&st, fin)?;
        must!(r.pos <= n, "overread", "{} bytes consumed of a message of {}", r.pos, n);
        // ordinals are consumed unseen where the names do not agree
        must!(log.matches(&want, false, true), "parts", "read {}, from {:02x?} with parts {}", short(&log.text()), clip(&r.data[..n]), short(&format!("{:?}", want)));
        if fin {
            must!(!r.failed, "failure-hidden", "finished although the stream failed");
            must!(r.pos == n && log.matches(&want, true, true), "false-completion", "finished after {} of {} bytes with {} of {}", r.pos, n, short(&log.text()), short(&format!("{:?}", want)));
            if log.told.get() > 0 {
                ctx.count(K::PLiesPassed);
            }
            if ctx.chance(1, 2) {
                break;
            }
        }
    }
    pool.give(ctx, st);
    Ok(())
}

pub fn liar(ctx: &Ctx) -> Run {
    if ctx.chance(1, 2) {
        write(ctx)
    } else {
        read(ctx)
    }
}
