//! S16: the two ends disagree about the schema (version skew).
//!
//! One end works with a shape of its own (a Rust type, or a schema of its own) while the schema in
//! force says something else. Where the shape cannot carry the value, the library must refuse.

use crate::ctx::{Ctx, Run, K};
use crate::gen::{self, SAFE};
use crate::model::{self, resolve, veq, Bad, Env};
use crate::must;
use crate::paths::*;
use crate::sess::*;
use crate::stream::*;
use crate::typed;
use crate::worlds::{describe, end_state, equal, Pool};
use binschema::error::ErrorKind;
use binschema::value::{EnumValue, StructValueField, Value};
use binschema::{CoderState, Schema, SeqSchema};
use std::any::Any;

/// The value of `schema` that a value of another shape stands for, if any. Serde does not tell
/// sequences, arrays, tuples and empty things apart, so neither does this.
pub fn coerce(schema: &Schema, v: &Value) -> Option<Value> {
    go(schema, None, v)
}

fn go(s: &Schema, env: Option<&Env>, v: &Value) -> Option<Value> {
    let (s, env) = resolve(s, env)?;
    let here = Env { schema: s, up: env };
    let e = Some(&here);
    let elems = match v {
        Value::Unit => Some(&[][..]),
        Value::FixedLenSeq(xs) | Value::VarLenSeq(xs) | Value::Tuple(xs) => Some(&xs[..]),
        _ => None,
    };
    Some(match (s, v) {
        (Schema::Scalar(t), Value::Scalar(x)) if model::scalar_type(*x) == *t => v.clone(),
        (Schema::Str, Value::Str(_)) | (Schema::Bytes, Value::Bytes(_)) => v.clone(),
        (Schema::Option(_), Value::Option(None)) => v.clone(),
        (Schema::Option(i), Value::Option(Some(x))) => Value::Option(Some(Box::new(go(i, e, x)?))),
        (Schema::Unit, _) if elems?.is_empty() => Value::Unit,
        (Schema::Seq(SeqSchema { len: Some(n), inner }), _) if elems?.len() == *n => Value::FixedLenSeq(elems?.iter().map(|x| go(inner, e, x)).collect::<Option<_>>()?),
        (Schema::Seq(SeqSchema { len: None, inner }), _) => Value::VarLenSeq(elems?.iter().map(|x| go(inner, e, x)).collect::<Option<_>>()?),
        (Schema::Tuple(ss), _) if elems?.len() == ss.len() => Value::Tuple(ss.iter().zip(elems?).map(|(s, x)| go(s, e, x)).collect::<Option<_>>()?),
        (Schema::Struct(fs), Value::Struct(xs)) if fs.len() == xs.len() => Value::Struct(
            fs.iter()
                .zip(xs)
                .map(|(f, x)| if f.name == x.name { Some(StructValueField { name: x.name.clone(), value: go(&f.inner, e, &x.value)? }) } else { None })
                .collect::<Option<_>>()?,
        ),
        (Schema::Enum(vs), Value::Enum(x)) => {
            let w = vs.get(x.variant_ord).filter(|w| w.name == x.variant_name)?;
            Value::Enum(EnumValue { variant_ord: x.variant_ord, variant_name: x.variant_name.clone(), value: Box::new(go(&w.inner, e, &x.value)?) })
        }
        _ => return None,
    })
}

#[derive(PartialEq, Debug)]
enum Kind {
    Scalar(binschema::ScalarType),
    Str,
    Bytes,
    Option,
    /// units, sequences, tuples: how many elements, if that is known beforehand
    Seq(Option<usize>),
    Struct,
    Enum,
}

fn kind(s: &Schema) -> Kind {
    match s {
        Schema::Scalar(t) => Kind::Scalar(*t),
        Schema::Str => Kind::Str,
        Schema::Bytes => Kind::Bytes,
        Schema::Unit => Kind::Seq(Some(0)),
        Schema::Option(_) => Kind::Option,
        Schema::Seq(q) => Kind::Seq(q.len),
        Schema::Tuple(ss) => Kind::Seq(Some(ss.len())),
        Schema::Struct(_) => Kind::Struct,
        Schema::Enum(_) => Kind::Enum,
        Schema::Recurse(_) => panic!("sim: recursion at the root"),
    }
}

/// Is the very first call bound to be refused? `lens`: lengths known on both sides count.
fn apart(a: &Kind, b: &Kind, lens: bool) -> bool {
    match (a, b) {
        (Kind::Seq(Some(a)), Kind::Seq(Some(b))) => lens && a != b,
        (Kind::Seq(_), Kind::Seq(_)) => false,
        _ => a != b,
    }
}

/// What one end works with.
enum Shape {
    Typed(usize),
    Own(Schema),
}

impl Shape {
    fn schema(&self) -> &Schema {
        match self {
            Shape::Typed(i) => &typed::types().schemas[*i],
            Shape::Own(s) => s,
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Shape::Typed(i) => typed::types().all[*i].name,
            Shape::Own(_) => "own schema",
        }
    }
}

fn draw_shapes(ctx: &Ctx) -> (Shape, Schema, Option<Value>) {
    let t = typed::types();
    let mut big = None;
    let shape = if ctx.chance(1, 5000) {
        // far longer, wider or deeper than usual
        let (s, v) = gen::extreme(ctx);
        big = Some(v);
        Shape::Own(s)
    } else if ctx.chance(2, 3) {
        Shape::Typed(ctx.below(t.all.len()))
    } else {
        let mut o = SAFE;
        o.big_enums = ctx.chance(1, 6);
        Shape::Own(gen::schema(ctx, o))
    };
    let mut force = shape.schema().clone();
    if ctx.chance(1, 10) {
        force = ctx.pick(&t.schemas[..]).clone();
    } else {
        for _ in 0..*ctx.pick(&[1usize, 1, 1, 2, 4]) {
            gen::tweak(ctx, &mut force);
        }
    }
    if shape.schema() != &force {
        ctx.count(K::Skewed);
    }
    ctx.ev(120, 0, 0, || format!("one end works with {}: {}", shape.name(), short(&format!("{:?}", shape.schema()))));
    ctx.ev(121, 0, 0, || format!("in force: {}", short(&format!("{:?}", force))));
    (shape, force, big)
}

pub fn skew(ctx: &Ctx) -> Run {
    let (shape, force, big) = draw_shapes(ctx);
    if !gen::plausible(&force) || matches!(force, Schema::Recurse(_)) {
        return Ok(());
    }
    if ctx.chance(1, 2) {
        send(ctx, &shape, &force, big)
    } else {
        receive(ctx, &shape, &force, big)
    }
}

fn has_empty_enum(s: &Schema) -> bool {
    let mut any = false;
    gen::walk(s, 0, &mut |s, _| any |= matches!(s, Schema::Enum(v) if v.is_empty()));
    any
}

/// Refusals are the caller's fault or the schema's, never the data's or the stream's.
fn refusal_kind(what: &str, e: &binschema::error::Error) -> Run {
    let text = format!("{} / {:?}", e, e);
    must!(text.contains(&e.inner().to_string()), "error-text", "{}: the error's text {:?} lacks its cause", what, text);
    must!(
        matches!(e.kind(), ErrorKind::SchemaNonConformance | ErrorKind::ApiUsage | ErrorKind::Other),
        "refusal-kind",
        "{}: refused as {:?}: {}",
        what,
        e.kind(),
        e.inner()
    );
    Ok(())
}

fn send(ctx: &Ctx, shape: &Shape, force: &Schema, big: Option<Value>) -> Run {
    let t = typed::types();
    let fuel = &mut typed::fuel(ctx);
    let (x, v): (Option<Box<dyn Any>>, Value) = match shape {
        Shape::Typed(i) => {
            let x = (t.all[*i].gen)(ctx, fuel);
            let v = (t.all[*i].val)(&*x, false);
            (Some(x), v)
        }
        Shape::Own(s) => (None, big.unwrap_or_else(|| gen::value_fuel(ctx, s, *fuel))),
    };
    describe(ctx, force, Some(&v));
    let mut pool = Pool(vec![]);
    let mut st = CoderState::new(force, pool.take(ctx), None);
    let mut w = SimWriter::new(ctx, 0, Manner::draw(ctx));
    let typed_path = x.is_some() && ctx.chance(2, 3);
    let path = enc_path(ctx);
    let r = if typed_path {
        let i = match shape {
            Shape::Typed(i) => *i,
            _ => unreachable!(),
        };
        ctx.call();
        (t.all[i].ser)(x.as_deref().unwrap(), &mut st, &mut w)
    } else {
        enc_all(ctx, path, shape.schema(), &v, &mut st, &mut w)
    };
    let what = format!("{} sent through {}", shape.name(), if typed_path { "its type".to_string() } else { format!("{:?}", path) });
    ctx.ev(122, typed_path as u64, r.is_ok() as u64, || format!("{} -> {}", what, show(&r)));
    let strict = model::conforms(force, &v);
    match (&r, coerce(force, &v)) {
        (Ok(()), Some(c)) => {
            let want = model::encode(force, &c);
            must!(w.sink == want, "bytes", "{}: {} gave {:02x?}, the schema in force says {:02x?}", what, short(&format!("{:?}", v)), clip(&w.sink), clip(&want));
            end_state(&st, true)?;
            ctx.count(if strict { K::PSkewFits } else { K::PSkewCoerced });
            pool.give(ctx, st);
            return Ok(());
        }
        (Ok(()), None) => return bad("nonconforming-accepted", format!("{}: {} is not a value of {} but was encoded as {:02x?}", what, short(&format!("{:?}", v)), short(&format!("{:?}", force)), clip(&w.sink))),
        (Err(_), c) => {
            must!(!strict, "conforming-refused", "{}: {} is a value of {} but was refused: {}", what, short(&format!("{:?}", v)), short(&format!("{:?}", force)), show(&r));
            ctx.count(if c.is_some() { K::PSkewShy } else { K::PSkewRefused });
        }
    }
    refusal_kind(&what, r.as_ref().err().unwrap())?;
    end_state(&st, false)?;
    // what went out can still become a message
    if !has_empty_enum(force) {
        match model::decode(force, &w.sink).0 {
            Err(b @ (Bad::Malformed | Bad::Illegal)) => return bad("prefix", format!("{}: refused, but {:02x?} was already written, which is {:?} under the schema in force", what, clip(&w.sink), b)),
            _ => {}
        }
    }
    // a refusal at the first call leaves everything as it was
    let first = match (&v, force) {
        (Value::Enum(x), Schema::Enum(vs)) => vs.get(x.variant_ord).map_or(true, |w| w.name != x.variant_name),
        (Value::VarLenSeq(_), _) => apart(&kind(shape.schema()), &kind(force), false) || (typed_path && apart(&Kind::Seq(seq_len(&v)), &kind(force), true)),
        _ => apart(&kind(shape.schema()), &kind(force), typed_path),
    };
    if first {
        ctx.count(K::PSkewFirst);
        must!(w.calls == 0 && w.sink.is_empty(), "refused-but-wrote", "{}: refused at once, but called the stream {} times", what, w.calls);
        let c = gen::value_fuel(ctx, force, 20);
        let r = enc_all(ctx, enc_path(ctx), force, &c, &mut st, &mut w);
        let want = model::encode(force, &c);
        must!(r.is_ok() && w.sink == want, "refusal-changed-state", "{}: after the refusal {} gave {} and bytes {:02x?}, expected {:02x?}", what, short(&format!("{:?}", c)), show(&r), clip(&w.sink), clip(&want));
        end_state(&st, true)?;
    }
    Ok(())
}

fn seq_len(v: &Value) -> Option<usize> {
    match v {
        Value::VarLenSeq(xs) => Some(xs.len()),
        _ => None,
    }
}

fn receive(ctx: &Ctx, shape: &Shape, force: &Schema, big: Option<Value>) -> Run {
    let t = typed::types();
    let sent = big.and_then(|v| coerce(force, &v)).unwrap_or_else(|| gen::value_fuel(ctx, force, typed::fuel(ctx)));
    describe(ctx, force, Some(&sent));
    let data = model::encode(force, &sent);
    let n = data.len();
    let mut pool = Pool(vec![]);
    let mut st = CoderState::new(force, pool.take(ctx), None);
    let mut r = SimReader::new(ctx, 1, data, Manner::draw(ctx));
    if n > 0 && ctx.chance(1, 6) {
        r.fault = Some(draw_fault(ctx, READ_FKS, ctx.below(n)));
    }
    let mut exact = true;
    let typed_path = matches!(shape, Shape::Typed(_)) && ctx.chance(3, 4);
    let what;
    let got = match shape {
        Shape::Typed(i) if typed_path => {
            ctx.call();
            exact = t.all[*i].exact;
            what = format!("read as {}", t.all[*i].name);
            (t.all[*i].de)(&mut st, &mut r).map(|y| (t.all[*i].val)(&*y, false))
        }
        _ => {
            let ops = ctx.chance(1, 2);
            what = format!("read with {} through {}", shape.name(), if ops { "calls" } else { "serde" });
            dec_as(ctx, ops, shape.schema(), &mut st, &mut r)
        }
    };
    // the text of a hashed collection is not under the simulator's control
    ctx.ev(123, typed_path as u64, got.is_ok() as u64, || format!("{} -> {}", what, got.as_ref().err().map_or("ok".to_string(), |e| format!("{:?}: {}", e.kind(), e.inner()))));
    must!(r.pos <= n, "overread", "{}: consumed {} bytes of a {} byte message", what, r.pos, n);
    let e = match got {
        Ok(v) => {
            must!(!r.failed, "failure-hidden", "{}: the stream failed, but the value was accepted", what);
            must!(r.pos == n, "consumed", "{}: consumed {} bytes of a {} byte message", what, r.pos, n);
            end_state(&st, true)?;
            if exact {
                match coerce(force, &v) {
                    None => return bad("nonconforming-accepted", format!("{}: message {} of {} was accepted as {}", what, short(&format!("{:?}", sent)), short(&format!("{:?}", force)), short(&format!("{:?}", v)))),
                    Some(c) => must!(veq(&c, &sent), "value", "{}: message {} of {} was read as {}", what, short(&format!("{:?}", sent)), short(&format!("{:?}", force)), short(&format!("{:?}", v))),
                }
            }
            ctx.count(if model::conforms(shape.schema(), &sent) { K::PSkewFits } else { K::PSkewCoerced });
            return Ok(());
        }
        Err(e) => e,
    };
    if r.failed {
        let f = r.fault.unwrap();
        must!(e.kind() == ErrorKind::Io && f.carried_by(&e), "failure-cause", "{}: over {:?}: {:?}: {}", what, f, e.kind(), e.inner());
        return end_state(&st, false);
    }
    must!(!model::conforms(shape.schema(), &sent), "conforming-refused", "{}: message {} is of that shape but was refused: {:?}: {}", what, short(&format!("{:?}", sent)), e.kind(), e.inner());
    ctx.count(K::PSkewRefused);
    refusal_kind(&what, &e)?;
    // a visitor of the harness may find fault with a value after all of it was read
    if typed_path || e.kind() != ErrorKind::Other {
        end_state(&st, false)?;
    }
    if apart(&kind(shape.schema()), &kind(force), typed_path) {
        ctx.count(K::PSkewFirst);
        must!(r.calls == 0, "refused-but-read", "{}: refused at once, but called the stream {} times", what, r.calls);
        r.fault = None;
        let p = dec_path(ctx);
        let again = dec_all(ctx, p, force, &mut st, &mut r);
        match &again {
            Err(_) => return bad("refusal-changed-state", format!("{}: after the refusal, reading with the schema in force gave {}", what, show(&again))),
            Ok(g) => equal("after the refusal, the schema in force", g, &sent)?,
        }
        must!(r.pos == n, "consumed", "{}: after the refusal consumed {} bytes of a {} byte message", what, r.pos, n);
        end_state(&st, true)?;
    }
    Ok(())
}
