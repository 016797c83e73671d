//! Single-process worlds.

use crate::alloc;
use crate::ctx::{mix, CrashToken, Ctx, Run, K};
use crate::gen::{self, PLAIN, SAFE};
use crate::model::{self, veq, Bad, DOp, Op, Verdict};
use crate::must;
use crate::paths::*;
use crate::sess::*;
use crate::stream::*;
use crate::typed;
use binschema::error::{Error, ErrorKind};
use binschema::value::Value;
use binschema::{CoderState, CoderStateAlloc, Decoder, Encoder, Schema};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Run code that a simulated crash may unwind out of. None: it crashed.
pub fn crashable<T>(f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(p) if p.is::<CrashToken>() => None,
        Err(p) => resume_unwind(p),
    }
}

pub struct Pool(pub Vec<CoderStateAlloc>);
impl Pool {
    pub fn take(&mut self, ctx: &Ctx) -> CoderStateAlloc {
        if self.0.is_empty() || ctx.chance(1, 4) {
            CoderStateAlloc::new()
        } else {
            ctx.count(K::Recycle);
            let i = ctx.below(self.0.len());
            self.0.swap_remove(i)
        }
    }
    pub fn give(&mut self, ctx: &Ctx, st: CoderState) {
        if ctx.chance(3, 4) {
            self.0.push(st.into_alloc());
        } else {
            ctx.count(K::DropAlloc);
        }
    }
}

pub fn describe(ctx: &Ctx, schema: &Schema, v: Option<&Value>) {
    ctx.ev(40, 0, 0, || format!("schema {}", short(&format!("{:?}", schema))));
    if let Some(v) = v {
        ctx.ev(41, 0, 0, || format!("value {}", short(&format!("{:?}", v))));
    }
}

/// A coder that met its end refuses everything, silently.
fn spent_encoder(ctx: &Ctx, st: &mut CoderState, w: &mut SimWriter, finished: bool) -> Run {
    let m = model::Machine::new(&Schema::Unit);
    for _ in 0..1 + ctx.below(3) {
        let op = wild_op(ctx, &m);
        let (calls, len) = (w.calls, w.sink.len());
        let r = enc_call(ctx, st, w, &op);
        match &r {
            Ok(()) => return bad("accepted-after-end", format!("encoder accepted {:?} after its {}", op, if finished { "completion" } else { "failure" })),
            Err(e) => must!(e.kind() == ErrorKind::ApiUsage, "end-kind", "{:?} on a {} coder reported {}", op, if finished { "finished" } else { "broken" }, show(&r)),
        }
        must!(w.calls == calls && w.sink.len() == len, "end-touched-stream", "{:?} touched the stream after the coder's end", op);
    }
    end_state(st, finished)
}

fn spent_decoder(ctx: &Ctx, st: &mut CoderState, r: &mut SimReader, finished: bool) -> Run {
    let m = model::Machine::new(&Schema::Unit);
    for _ in 0..1 + ctx.below(3) {
        let op = wild_dop(ctx, &m);
        let (calls, pos) = (r.calls, r.pos);
        let res = dec_call(ctx, st, r, &op, &mut Bufs::dirty());
        match &res {
            Ok(_) => return bad("accepted-after-end", format!("decoder accepted {:?} after its {}", op, if finished { "completion" } else { "failure" })),
            Err(e) => must!(e.kind() == ErrorKind::ApiUsage, "end-kind", "{:?} on a {} coder reported {}", op, if finished { "finished" } else { "broken" }, show(&res)),
        }
        must!(r.calls == calls && r.pos == pos, "end-touched-stream", "{:?} touched the stream after the coder's end", op);
    }
    end_state(st, finished)
}

pub fn end_state(st: &CoderState, finished: bool) -> Run {
    must!(st.is_finished() == finished, "completion", "is_finished() = {} on a {} coder", st.is_finished(), if finished { "finished" } else { "broken" });
    match st.is_finished_or_err() {
        Ok(()) => must!(finished, "completion", "is_finished_or_err() succeeded on a broken coder"),
        Err(e) => must!(!finished && e.kind() == ErrorKind::ApiUsage, "completion", "is_finished_or_err() reported {:?} on a {} coder", e.kind(), if finished { "finished" } else { "broken" }),
    }
    Ok(())
}

pub fn equal(what: &str, got: &Option<Value>, want: &Value) -> Run {
    if let Some(got) = got {
        must!(veq(got, want), "value", "{}: got {}, expected {}", what, short(&format!("{:?}", got)), short(&format!("{:?}", want)));
    }
    Ok(())
}

// ---- S01 ----

pub fn courier(ctx: &Ctx) -> Run {
    if ctx.chance(1, 100_000) {
        return vast(ctx, false);
    }
    if ctx.chance(1, 12_000) {
        return climb(ctx);
    }
    if ctx.chance(1, 1500) {
        let (s, v) = gen::extreme(ctx);
        return carry(ctx, &[s], &[(0, v)]);
    }
    let schemas: Vec<Schema> = (0..1 + ctx.below(2)).map(|_| gen::schema(ctx, PLAIN)).collect();
    let msgs: Vec<(usize, Value)> = (0..1 + ctx.below(3))
        .map(|_| {
            let i = ctx.below(schemas.len());
            (i, gen::value(ctx, &schemas[i]))
        })
        .collect();
    carry(ctx, &schemas, &msgs)
}

fn carry(ctx: &Ctx, schemas: &[Schema], msgs: &[(usize, Value)]) -> Run {
    let mut pool = Pool(vec![]);
    let mut w = SimWriter::new(ctx, 0, Manner::draw(ctx));
    for (i, v) in msgs {
        let s = &schemas[*i];
        describe(ctx, s, Some(v));
        let mut st = CoderState::new(s, pool.take(ctx), None);
        let r = enc_all(ctx, enc_path(ctx), s, v, &mut st, &mut w);
        must!(r.is_ok(), "encode-failed", "conforming value refused on a lossless stream: {}", show(&r));
        must!(st.is_finished() && st.is_finished_or_err().is_ok(), "not-finished", "encoder not finished after a whole value");
        pool.give(ctx, st);
    }
    let mut r = SimReader::new(ctx, 1, w.sink, Manner::draw(ctx));
    for (i, v) in msgs {
        let s = &schemas[*i];
        let mut st = CoderState::new(s, pool.take(ctx), None);
        let p = dec_path(ctx);
        let got = dec_all(ctx, p, s, &mut st, &mut r);
        match &got {
            Err(_) => return bad("decode-failed", format!("{:?}: whole message refused: {}", p, show(&got))),
            Ok(g) => equal(&format!("{:?}", p), g, v)?,
        }
        must!(st.is_finished() && st.is_finished_or_err().is_ok(), "not-finished", "{:?}: decoder not finished after a whole value", p);
        ctx.count(K::PFinished);
        pool.give(ctx, st);
    }
    must!(r.pos == r.data.len(), "leftover", "{} bytes left over after the last message", r.data.len() - r.pos);
    Ok(())
}

// ---- S02 ----

pub fn scribe(ctx: &Ctx) -> Run {
    if ctx.chance(1, 120_000) {
        return vast(ctx, false);
    }
    let (s, msgs): (Schema, Vec<Value>) = if ctx.chance(1, 2500) {
        let (s, v) = gen::extreme(ctx);
        (s, vec![v])
    } else {
        let s = gen::schema(ctx, PLAIN);
        let msgs = (0..1 + ctx.below(2)).map(|_| gen::value(ctx, &s)).collect();
        (s, msgs)
    };
    let parts: Vec<Vec<u8>> = msgs.iter().map(|v| model::encode(&s, v)).collect();
    let total: Vec<u8> = parts.concat();
    describe(ctx, &s, msgs.first());
    let mut pool = Pool(vec![]);

    // encode to a device that may fail; or be abandoned or crash part-way
    let mut w = SimWriter::new(ctx, 0, Manner::draw(ctx));
    w.expect = Some(total.clone());
    let hazard = ctx.draw(4);
    if hazard == 1 && !total.is_empty() {
        w.fault = Some(draw_fault(ctx, WRITE_FKS, ctx.below(total.len())));
    }
    if hazard == 2 {
        w.crash_at_call = Some(1 + ctx.draw(2 * total.len().min(40) as u64 + 1));
    }
    let mut done = 0;
    for (k, v) in msgs.iter().enumerate() {
        let start = w.sink.len();
        let path = if hazard == 3 && k + 1 == msgs.len() { EncPath::Ops } else { enc_path(ctx) };
        let abandon_at = if hazard == 3 && k + 1 == msgs.len() { Some(ctx.below(model::flatten(&s, v).len() + 1)) } else { None };
        let alloc = pool.take(ctx);
        let out = crashable(|| {
            let mut st = CoderState::new(&s, alloc, None);
            let r: Result<(), Error> = match abandon_at {
                Some(n) => {
                    ctx.count(K::Abandon);
                    (|| {
                        let mut so_far = 0;
                        for (i, (op, out)) in model::flatten(&s, v).iter().take(n).enumerate() {
                            enc_call(ctx, &mut st, &mut w, op)?;
                            so_far += out.len();
                            if w.sink.len() - start != so_far {
                                return Err(Error::other(format!("sim: after call {} the output has {} bytes, expected {}", i, w.sink.len() - start, so_far)));
                            }
                        }
                        Ok(())
                    })()
                }
                None => enc_all(ctx, path, &s, v, &mut st, &mut w),
            };
            let fin = st.is_finished();
            let orr = st.is_finished_or_err().is_ok();
            pool.give(ctx, st);
            (r, fin, orr)
        });
        if let Some(at) = w.diverged {
            return bad("bytes", format!("output diverges from the documented encoding within the write at byte {}: {:02x?} instead of {:02x?}", at, clip(&w.sink[at..]), clip(&total[at.min(total.len())..])));
        }
        match out {
            None => break,
            Some((r, fin, orr)) => {
                must!(fin == orr, "completion", "is_finished() and is_finished_or_err() disagree");
                if fin {
                    must!(w.sink[start..] == parts[k][..], "incomplete", "encoder reports completion with {} of {} bytes out", w.sink.len() - start, parts[k].len());
                    done += 1;
                }
                if w.failed {
                    must!(r.is_err(), "failure-hidden", "encode returned Ok over a failed stream");
                    must!(!fin, "completion", "encoder finished over a failed stream");
                    break;
                }
                if let Err(e) = &r {
                    return bad("encode-failed", format!("conforming value refused: {:?}: {}", e.kind(), e.inner()));
                }
                must!(fin || abandon_at.is_some(), "not-finished", "encoder not finished after a whole value");
                if !fin {
                    break;
                }
            }
        }
    }
    let _ = done;

    // decode what an independent implementation wrote
    let mut r = SimReader::new(ctx, 1, total, Manner::draw(ctx));
    for (v, part) in msgs.iter().zip(&parts) {
        let at = r.pos;
        let mut st = CoderState::new(&s, pool.take(ctx), None);
        let p = dec_path(ctx);
        let got = dec_all(ctx, p, &s, &mut st, &mut r);
        match &got {
            Err(_) => return bad("decode-failed", format!("{:?}: the documented encoding was refused: {}", p, show(&got))),
            Ok(g) => equal(&format!("{:?}", p), g, v)?,
        }
        must!(st.is_finished(), "not-finished", "{:?}: decoder not finished", p);
        must!(r.pos == at + part.len(), "consumed", "{:?}: consumed {} bytes of a {} byte message", p, r.pos - at, part.len());
        ctx.count(K::PFinished);
        pool.give(ctx, st);
    }
    Ok(())
}

// ---- S04 ----

pub fn failstop(ctx: &Ctx) -> Run {
    let mut o = PLAIN;
    o.big_enums = ctx.chance(1, 3);
    let (s, v) = if ctx.chance(1, 4000) {
        gen::extreme(ctx)
    } else {
        let s = gen::schema(ctx, o);
        let v = gen::value(ctx, &s);
        (s, v)
    };
    let bytes = model::encode(&s, &v);
    describe(ctx, &s, Some(&v));
    if bytes.is_empty() {
        return Ok(());
    }
    let at = match ctx.draw(8) {
        0..=3 => ctx.below(bytes.len().min(16)),
        // at the end, or near a boundary the coder may have within a long item
        4 => bytes.len() - 1 - ctx.below(bytes.len().min(4)),
        5 if bytes.len() > 1 << 16 => ((1 + ctx.below(bytes.len() >> 16)) << 16).saturating_sub(ctx.below(8)).min(bytes.len() - 1),
        _ => ctx.below(bytes.len()),
    };
    let mut pool = Pool(vec![]);
    let alloc = pool.take(ctx);
    let mut st = CoderState::new(&s, alloc, None);
    if ctx.chance(1, 2) {
        let mut w = SimWriter::new(ctx, 0, Manner::draw(ctx));
        w.fault = Some(draw_fault(ctx, WRITE_FKS, at));
        let f = w.fault.unwrap();
        let p = enc_path(ctx);
        let r = enc_all(ctx, p, &s, &v, &mut st, &mut w);
        let e = match &r {
            Ok(()) => return bad("failure-hidden", format!("{:?}: encode returned Ok though {:?}", p, f)),
            Err(e) => e,
        };
        must!(w.failed, "failed-early", "{:?}: encode failed though the stream had not: {}", p, show(&r));
        must!(e.kind() == ErrorKind::Io, "failure-kind", "{:?}: stream failed with {:?}, reported as {}", p, f, show(&r));
        must!(f.carried_by(e), "failure-cause", "{:?}: stream failed with {:?}, reported as {}", p, f, show(&r));
        must!(w.touched_after_fail == 0, "stream-touched-after-failure", "{:?}: the stream was called {} more times within the failing call", p, w.touched_after_fail);
        spent_encoder(ctx, &mut st, &mut w, false)?;
        must!(w.touched_after_fail == 0, "stream-touched-after-failure", "{:?}: the stream was called {} more times", p, w.touched_after_fail);
        must!(w.sink == bytes[..w.sink.len()], "bytes", "{:?}: the bytes out are not a prefix", p);
        // whole-value interfaces refuse too
        let r = enc_all(ctx, enc_path(ctx), &s, &v, &mut st, &mut w);
        must!(r.is_err(), "end-kind", "whole value on a broken coder: {}", show(&r));
        must!(w.touched_after_fail == 0, "stream-touched-after-failure", "{:?}: the stream was called {} more times", p, w.touched_after_fail);
        end_state(&st, false)?;
    } else {
        let mut r = SimReader::new(ctx, 1, bytes, Manner::draw(ctx));
        r.fault = Some(draw_fault(ctx, READ_FKS, at));
        let f = r.fault.unwrap();
        let p = dec_path(ctx);
        let got = dec_all(ctx, p, &s, &mut st, &mut r);
        let e = match &got {
            Ok(_) => return bad("failure-hidden", format!("{:?}: decode returned Ok though {:?}", p, f)),
            Err(e) => e,
        };
        must!(r.failed, "failed-early", "{:?}: decode failed though the stream had not: {}", p, show(&got));
        must!(e.kind() == ErrorKind::Io, "failure-kind", "{:?}: stream failed with {:?}, reported as {}", p, f, show(&got));
        must!(f.carried_by(e), "failure-cause", "{:?}: stream failed with {:?}, reported as {}", p, f, show(&got));
        must!(r.touched_after_fail == 0, "stream-touched-after-failure", "{:?}: the stream was called {} more times within the failing call", p, r.touched_after_fail);
        spent_decoder(ctx, &mut st, &mut r, false)?;
        let got = dec_all(ctx, dec_path(ctx), &s, &mut st, &mut r);
        must!(got.is_err(), "end-kind", "whole value on a broken coder: {}", show(&got));
        must!(r.touched_after_fail == 0, "stream-touched-after-failure", "{:?}: the stream was called {} more times", p, r.touched_after_fail);
        end_state(&st, false)?;
    }
    // a fresh coder on the recycled allocation is not affected
    let mut st2 = CoderState::new(&s, st.into_alloc(), None);
    let mut w = SimWriter::new(ctx, 2, Manner::CALM);
    let r = enc_all(ctx, enc_path(ctx), &s, &v, &mut st2, &mut w);
    must!(r.is_ok() && st2.is_finished(), "successor", "a fresh coder after a failed one: {}", show(&r));
    Ok(())
}

// ---- S05 ----

/// Compare a whole-message decode with the model's reading of the same bytes.
pub fn judge(ctx: &Ctx, what: &str, got: &Result<Option<Value>, Error>, st: &mut CoderState, r: &mut SimReader, from: usize, want: &(Result<Value, Bad>, usize)) -> Run {
    match (&want.0, got) {
        (Ok(v), Ok(g)) => {
            equal(what, g, v)?;
            must!(r.pos == from + want.1, "consumed", "{}: consumed {} bytes of a {} byte message", what, r.pos - from, want.1);
            spent_decoder(ctx, st, r, true)?;
            ctx.count(K::PAcceptedDamage);
        }
        (Ok(v), Err(_)) => return bad("decode-failed", format!("{}: bytes are the message {} but were refused: {}", what, short(&format!("{:?}", v)), show(got))),
        (Err(b), Ok(g)) => return bad("bad-accepted", format!("{}: bytes are {:?} but decoded to {}", what, b, short(&format!("{:?}", g)))),
        (Err(b), Err(e)) => {
            bad_kind(what, *b, e, r.fault, r.failed)?;
            match b {
                Bad::Malformed => ctx.count(K::PMalformed),
                Bad::Limits | Bad::Huge => ctx.count(K::PLimits),
                Bad::Truncated => ctx.count(K::PTruncated),
                Bad::Illegal => ctx.count(K::PIllegalHit),
            }
            spent_decoder(ctx, st, r, false)?;
        }
    }
    Ok(())
}

pub fn damage_world(ctx: &Ctx) -> Run {
    if ctx.chance(1, 180_000) {
        return vast(ctx, true);
    }
    let mut o = SAFE;
    o.big_enums = ctx.chance(1, 2);
    let giant = ctx.chance(1, 4000);
    let (s, v) = if giant {
        gen::extreme(ctx)
    } else {
        let s = gen::schema(ctx, o);
        let v = gen::value_fuel(ctx, &s, *ctx.pick(&[6i64, 20]));
        (s, v)
    };
    let mut b = model::encode(&s, &v);
    describe(ctx, &s, Some(&v));
    if giant && !gen::tame(&s) {
        return Ok(());
    }
    if b.len() > 20_000 && !giant {
        b.truncate(20_000);
    }
    damage(ctx, &mut b);
    ctx.ev(31, 0, 0, || format!("bytes now {:02x?}{}", clip(&b), if b.len() > 40 { "..." } else { "" }));
    let want = model::decode(&s, &b);
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut r = SimReader::new(ctx, 1, b, Manner::draw(ctx));
    let p = dec_path(ctx);
    let got = dec_all(ctx, p, &s, &mut st, &mut r);
    judge(ctx, &format!("{:?}", p), &got, &mut st, &mut r, 0, &want)
}

// ---- S07 ----

pub fn hoard(ctx: &Ctx) -> Run {
    let mut o = SAFE;
    o.big_enums = false;
    let mut s;
    let mut ty = None;
    if ctx.chance(1, 3) {
        // read as a Rust type
        let t = typed::types();
        let i = *ctx.pick(&t.tame[..]);
        s = t.schemas[i].clone();
        ty = Some(&t.all[i]);
    } else {
        s = gen::schema(ctx, o);
    }
    // make sure there is a length to inflate
    match if ty.is_some() { 6 } else { ctx.draw(6) } {
        0 => s = Schema::Tuple(vec![s, Schema::Bytes]),
        1 => s = Schema::Tuple(vec![Schema::Str, s]),
        2 => s = Schema::Seq(binschema::SeqSchema { len: None, inner: Box::new(Schema::Tuple(vec![Schema::Scalar(binschema::ScalarType::U8), s])) }),
        3 => {
            // a schema that itself claims a huge length
            let n = *ctx.pick(&[1usize << 24, 1 << 30, 1 << 40, 1 << 60, usize::MAX >> 4, usize::MAX]);
            s = Schema::Tuple(vec![s, Schema::Seq(binschema::SeqSchema { len: Some(n), inner: Box::new(Schema::Scalar(*ctx.pick(gen::SCALARS))) })]);
            ctx.count(K::HostileLen);
        }
        _ => {}
    }
    let fixed_claim = matches!(&s, Schema::Tuple(x) if matches!(x.get(1), Some(Schema::Seq(q)) if q.len.map_or(false, |n| n >= 1 << 24)));
    let (prefix, claim) = if fixed_claim {
        let first = match &s {
            Schema::Tuple(x) => &x[0],
            _ => unreachable!(),
        };
        (model::encode(first, &gen::value_fuel(ctx, first, 6)), Vec::new())
    } else {
        let v = gen::value_fuel(ctx, &s, 12);
        let ops = model::flatten(&s, &v);
        let lens: Vec<usize> = ops.iter().enumerate().filter(|(_, (op, _))| matches!(op, Op::Str(_) | Op::Bytes(_) | Op::VarSeq(_))).map(|(i, _)| i).collect();
        if lens.is_empty() {
            return Ok(());
        }
        let i = *ctx.pick(&lens);
        let mut b = vec![];
        for (_, x) in &ops[..i] {
            b.extend(x);
        }
        ctx.count(K::HostileLen);
        let n: u128 = match ctx.draw(4) {
            0 => 1u128 << ctx.range(22, 40),
            1 => (1u128 << ctx.range(40, 64)) - 1,
            2 => usize::MAX as u128 - ctx.draw(3) as u128,
            _ => isize::MAX as u128 + ctx.draw(2) as u128,
        };
        (b, model::uint(n))
    };
    let mut b = prefix;
    b.extend(&claim);
    let tail = match ctx.draw(5) {
        0 => 0,
        1 | 2 => ctx.below(64),
        3 => ctx.below(3000),
        _ => ctx.below(40_000),
    };
    // and another within it, and so on
    for _ in 0..*ctx.pick(&[0usize, 0, 1, 3, 30]) {
        b.extend(&claim);
    }
    let t = ctx.draw(1 << 16);
    let zeros = ctx.chance(1, 2);
    b.extend((0..tail as u64).map(|i| if zeros { (mix(t ^ i) % 2) as u8 } else { mix(t ^ i) as u8 }));
    describe(ctx, &s, None);
    ctx.ev(32, b.len() as u64, 0, || format!("message of {} bytes claiming {:02x?}", b.len(), claim));
    let mut r = SimReader::new(ctx, 1, b, Manner::draw(ctx));
    if ctx.chance(1, 2) {
        let at = r.data.len();
        r.data.push(0);
        r.fault = Some(draw_fault(ctx, READ_FKS, at));
    }
    let want = model::decode(&s, r.available());
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let p = match ty {
        Some(ty) => ty.name.to_string(),
        None => String::new(),
    };
    let dp = dec_path(ctx);
    let p = if ty.is_some() { p } else { format!("{:?}", dp) };
    let nodes = gen::count_nodes(&s).min(500);
    let base = alloc::reset_peak();
    let got = match ty {
        Some(ty) => {
            ctx.call();
            // what the type holds is dropped here, after it counted
            (ty.de)(&mut st, &mut r).map(|_| None)
        }
        None => dec_all(ctx, dp, &s, &mut st, &mut r),
    };
    let peak = alloc::peak() - base;
    let bound = (256 << 10) + (r.pos as i64 + 16) * 256 * (nodes as i64 + 7);
    ctx.ev(33, 0, 0, || format!("peak {} bytes after {} delivered, bound {}", peak, r.pos, bound));
    must!(peak <= bound, "memory", "{}: held {} bytes after {} bytes were delivered (bound {}, schema of {} nodes)", p, peak, r.pos, bound, nodes);
    match (&want.0, &got) {
        (Ok(_), Ok(_)) => {}
        (Err(_), Err(_)) => {}
        (Ok(_), Err(_)) => return bad("decode-failed", format!("{}: {}", p, show(&got))),
        (Err(b), Ok(_)) => return bad("bad-accepted", format!("{}: bytes are {:?} but decoded to {}", p, b, show(&got))),
    }
    // the caller's buffers too
    if ctx.chance(1, 3) {
        let bs = if ctx.chance(1, 2) { Schema::Bytes } else { Schema::Str };
        let n = 1u128 << ctx.range(26, 63);
        let mut b = model::uint(n);
        let l = ctx.below(5000);
        b.extend(std::iter::repeat(b'x').take(l));
        let mut r = SimReader::new(ctx, 2, b, Manner::draw(ctx));
        let mut st = CoderState::new(&bs, CoderStateAlloc::new(), None);
        let mut bufs = Bufs::default();
        let base = alloc::reset_peak();
        let got = dec_call(ctx, &mut st, &mut r, &if bs == Schema::Str { DOp::StrInto } else { DOp::BytesInto }, &mut bufs);
        let peak = alloc::peak() - base;
        must!(got.is_err(), "bad-accepted", "short {:?} accepted", bs);
        must!(peak <= (256 << 10) + 64 * l as i64, "memory", "held {} bytes after {} bytes of {:?} were delivered", peak, r.pos, bs);
    }
    Ok(())
}

// ---- S08 ----


/// Where in a history of `n` calls the wrong ones come: often at its ends and where counters wrap.
fn places(ctx: &Ctx, n: usize) -> Vec<usize> {
    let mut at: Vec<usize> = (0..1 + ctx.below(6))
        .map(|_| match ctx.draw(4) {
            0 => n.saturating_sub(ctx.below(6)),
            1 => *ctx.pick(&[127usize, 128, 255, 256, 65535]) + ctx.below(6),
            2 => 2 * *ctx.pick(&[127usize, 128, 255, 256, 4096, 65535]) + ctx.below(6),
            _ => ctx.below(n + 1),
        })
        .collect();
    at.sort();
    at
}

/// Recursion so deep that only calls, and no values, can describe it: up to some 140 thousand levels.
pub fn climb(ctx: &Ctx) -> Run {
    use binschema::value::ScalarValue;
    use binschema::{EnumSchemaVariant, ScalarType, SeqSchema, StructSchemaField};
    let num = |i: usize| Op::Scalar(ScalarValue::U8(i as u8));
    let small = Schema::Scalar(ScalarType::U8);
    // layers from the outside in: first some met once, then those of one turn, an option first
    let once = ctx.below(4);
    let turn = 1 + ctx.below(5);
    let kinds: Vec<u64> = (0..once + turn).map(|i| if i == once { 0 } else { ctx.draw(6) }).collect();
    let mut s = Schema::Recurse(turn);
    for k in kinds.iter().rev() {
        s = match k {
            0 => Schema::Option(Box::new(s)),
            1 => Schema::Tuple(vec![small.clone(), s, Schema::Unit]),
            2 => Schema::Struct(vec![StructSchemaField { name: "a".into(), inner: s }, StructSchemaField { name: "b".into(), inner: small.clone() }]),
            3 => Schema::Seq(SeqSchema { len: None, inner: Box::new(s) }),
            4 => Schema::Seq(SeqSchema { len: Some(1), inner: Box::new(s) }),
            _ => Schema::Enum(vec![EnumSchemaVariant { name: "u".into(), inner: Schema::Unit }, EnumSchemaVariant { name: "v".into(), inner: s }]),
        };
    }
    let frames = *ctx.pick(&[70_000usize, 300, 33_000, 66_000, 132_000, 1_000]) + ctx.below(300);
    let turns = frames / turn;
    let mut ops = vec![];
    let down = |ops: &mut Vec<Op>, k: u64, i: usize| match k {
        0 => ops.push(Op::Some_),
        1 => ops.extend([Op::Tuple, Op::TupleElem, num(i), Op::TupleElem]),
        2 => ops.extend([Op::Struct, Op::Field("a".into())]),
        3 => ops.extend([Op::VarSeq(1), Op::SeqElem]),
        4 => ops.extend([Op::FixedSeq(1), Op::SeqElem]),
        _ => ops.push(Op::Enum(1, "v".into())),
    };
    let up = |ops: &mut Vec<Op>, k: u64, i: usize| match k {
        0 => {}
        1 => ops.extend([Op::TupleElem, Op::Unit, Op::FinishTuple]),
        2 => ops.extend([Op::Field("b".into()), num(i), Op::FinishStruct]),
        3 | 4 => ops.push(Op::FinishSeq),
        _ => {}
    };
    for (i, k) in kinds[..once].iter().enumerate() {
        down(&mut ops, *k, i);
    }
    for t in 0..turns {
        for (i, k) in kinds[once..].iter().enumerate() {
            down(&mut ops, *k, t + i);
        }
    }
    ops.push(Op::None_);
    for t in 0..turns {
        for (i, k) in kinds[once..].iter().enumerate().rev() {
            up(&mut ops, *k, t + i);
        }
    }
    for (i, k) in kinds[..once].iter().enumerate().rev() {
        up(&mut ops, *k, i);
    }
    describe(ctx, &s, None);
    ctx.ev(30, turns as u64, 0, || format!("{} turns of {} levels", turns, turn));
    ctx.count(K::PClimb);
    let mut pool = Pool(vec![]);
    let mut e = EncSess::new(&s, pool.take(ctx), SimWriter::new(ctx, 0, Manner::draw(ctx)), 0);
    for op in &ops {
        e.step(ctx, op)?;
    }
    must!(e.m.finished(), "not-finished", "the message is not finished after {} calls", ops.len());
    let b = std::mem::take(&mut e.w.sink);
    pool.give(ctx, e.st);
    let n = b.len();
    let mut d = DecSess::new(&s, pool.take(ctx), SimReader::new(ctx, 1, b, Manner::draw(ctx)));
    while !d.m.finished() && !d.m.broken {
        let op = d.next_op(ctx, false);
        d.step(ctx, &op)?;
    }
    must!(d.m.finished() && d.r.pos == n, "not-finished", "{} of {} bytes read", d.r.pos, n);
    pool.give(ctx, d.st);
    Ok(())
}

/// Enums so vast that their ordinals take three bytes, or four.
pub fn vast(ctx: &Ctx, damage: bool) -> Run {
    use binschema::value::ScalarValue;
    use binschema::{EnumSchemaVariant, ScalarType};
    let n = *ctx.pick(&[1usize << 24, (1 << 24) + 1, (1 << 24) + 2, (1 << 17) + 1, (1 << 20) + 77]);
    // the variants before the last are all alike
    let _u = alloc::Unmetered::new();
    let mut vs: Vec<EnumSchemaVariant> = Vec::with_capacity(n);
    vs.resize_with(n, || EnumSchemaVariant { name: String::new(), inner: Schema::Unit });
    vs[n - 1].inner = Schema::Scalar(ScalarType::U8);
    let s = Schema::Enum(vs);
    ctx.ev(31, n as u64, 0, || format!("an enum of {} variants, their names empty, all of type unit but the last, which is a u8", n));
    ctx.count(K::PVast);
    let bl = model::ord_len(n);
    let mut pool = Pool(vec![]);
    for _ in 0..3 {
        let o = match ctx.draw(9) {
            0 => n - 1,
            1 => 0,
            2 => 255 + ctx.below(2),
            3 => 65535 + ctx.below(2),
            4 => (1 << 24) - 2 + ctx.below(2),
            5 => n - 2,
            6 => n,
            7 => n + (1 << 24),
            _ => ctx.below(n),
        };
        let mut bytes = (o as u64).to_le_bytes()[..bl].to_vec();
        let fits = o < n;
        if fits && o == n - 1 {
            bytes.push(7);
        }
        let mut e = EncSess::new(&s, pool.take(ctx), SimWriter::new(ctx, 0, Manner::draw(ctx)), 0);
        e.step(ctx, &Op::Enum(o, String::new()))?;
        if fits {
            e.step(ctx, &if o == n - 1 { Op::Scalar(ScalarValue::U8(7)) } else { Op::Unit })?;
            must!(e.m.finished() && e.w.sink == bytes, "bytes", "ordinal {} of {} variants was written as {:02x?}, expected {:02x?}", o, n, e.w.sink, bytes);
        } else {
            must!(e.w.sink.is_empty(), "bytes", "ordinal {} of {} variants wrote {:02x?}", o, n, e.w.sink);
        }
        pool.give(ctx, e.st);
        if damage && ctx.chance(1, 2) {
            // the bytes of an ordinal that is too high, or that end too early
            bytes = match ctx.draw(3) {
                0 => vec![0xff; bl],
                1 => (n as u64).to_le_bytes()[..bl].to_vec(),
                _ => bytes[..ctx.below(bl)].to_vec(),
            };
        }
        let len = bytes.len();
        let mut d = DecSess::new(&s, pool.take(ctx), SimReader::new(ctx, 1, bytes, Manner::draw(ctx)));
        while !d.m.finished() && !d.m.broken {
            let op = d.next_op(ctx, false);
            d.step(ctx, &op)?;
        }
        must!(d.m.broken || d.r.pos == len, "not-finished", "{} of {} bytes read", d.r.pos, len);
        pool.give(ctx, d.st);
    }
    Ok(())
}

/// A history of right calls through a message of extreme size or shape, with wrong calls in a few places.
fn giant(ctx: &Ctx, faults: bool) -> Run {
    if ctx.chance(1, 6) {
        return climb(ctx);
    }
    let (s, v) = gen::extreme(ctx);
    describe(ctx, &s, Some(&v));
    let mut pool = Pool(vec![]);
    let ops = model::flatten(&s, &v);
    let places = places(ctx, ops.len());
    if ctx.chance(1, 2) {
        let mut w = SimWriter::new(ctx, 0, Manner::draw(ctx));
        if faults && ctx.chance(1, 2) {
            let n: usize = model::encode(&s, &v).len();
            w.fault = Some(draw_fault(ctx, WRITE_FKS, ctx.below(n + 1)));
        }
        let mut e = EncSess::new(&s, pool.take(ctx), w, 0);
        for (i, (op, _)) in ops.iter().enumerate() {
            for _ in places.iter().filter(|p| **p == i) {
                let op = e.next_op(ctx, true);
                if matches!(e.m.clone().enc(&op), Verdict::Reject) {
                    e.step(ctx, &op)?;
                    ctx.count(K::Misuse);
                    ctx.count(K::PRejected);
                }
            }
            if e.step(ctx, op)? == Did::Failed {
                break;
            }
        }
        for _ in 0..ctx.below(3) {
            let op = e.next_op(ctx, true);
            e.step(ctx, &op)?;
        }
        if e.m.finished() {
            ctx.count(K::PFinished);
        }
        pool.give(ctx, e.st);
    } else {
        let mut b = model::encode(&s, &v);
        let n = b.len();
        b.extend([0, 1, 0xff, 7, 0x80, 3]);
        let mut r = SimReader::new(ctx, 1, b, Manner::draw(ctx));
        if faults && ctx.chance(1, 2) {
            r.fault = Some(draw_fault(ctx, READ_FKS, ctx.below(n + 1)));
        }
        let mut d = DecSess::new(&s, pool.take(ctx), r);
        let mut i = 0;
        while !d.m.finished() && !d.m.broken {
            for _ in places.iter().filter(|p| **p == i) {
                let op = d.next_op(ctx, true);
                if matches!(d.m.clone().dec(&op, d.r.available()), Verdict::Reject) {
                    d.step(ctx, &op)?;
                    ctx.count(K::Misuse);
                    ctx.count(K::PRejected);
                }
            }
            let op = d.next_op(ctx, false);
            d.step(ctx, &op)?;
            i += 1;
        }
        if d.m.finished() {
            must!(d.r.pos == n, "consumed", "{} of {} bytes consumed", d.r.pos, n);
            ctx.count(K::PFinished);
        }
        for _ in 0..ctx.below(3) {
            let op = d.next_op(ctx, true);
            d.step(ctx, &op)?;
        }
        pool.give(ctx, d.st);
    }
    Ok(())
}

pub fn misuse(ctx: &Ctx) -> Run {
    if ctx.chance(1, 400) {
        return giant(ctx, false);
    }
    let mut o = PLAIN;
    o.big_enums = ctx.chance(1, 8);
    let s = gen::schema(ctx, o);
    describe(ctx, &s, None);
    let rate = *ctx.pick(&[(1u64, 2u64), (1, 4), (3, 4), (1, 8)]);
    let mut pool = Pool(vec![]);
    if ctx.chance(1, 2) {
        let fuel = *ctx.pick(&[6i64, 20, 60]);
        let mut e = EncSess::new(&s, pool.take(ctx), SimWriter::new(ctx, 0, Manner::draw(ctx)), fuel);
        let mut steps = 0;
        while !e.m.finished() && steps < 200 {
            steps += 1;
            if ctx.chance(1, 6) {
                let n = 1 + ctx.below(6);
                e.steps(ctx, n, rate)?;
                continue;
            }
            let wild = ctx.chance(rate.0, rate.1);
            let op = e.next_op(ctx, wild);
            if e.step(ctx, &op)? == Did::Rejected {
                ctx.count(K::Misuse);
                ctx.count(K::PRejected);
            }
        }
        if !e.finish(ctx)? {
            return Ok(());
        }
        for _ in 0..ctx.below(3) {
            let op = e.next_op(ctx, true);
            e.step(ctx, &op)?;
        }
        // what was written is what was accepted: the decoder agrees
        let (want, n) = model::decode(&s, &e.w.sink);
        must!(want.is_ok() && n == e.w.sink.len(), "bytes", "output of a session with rejected calls is not a message: {:?}", want.err());
    } else {
        let v = gen::value(ctx, &s);
        let mut b = model::encode(&s, &v);
        b.extend([0, 1, 0xff, 7, 0x80, 3]);
        let mut d = DecSess::new(&s, pool.take(ctx), SimReader::new(ctx, 1, b, Manner::draw(ctx)));
        let mut steps = 0;
        while !d.m.finished() && !d.m.broken {
            steps += 1;
            let wild = steps < 400 && ctx.chance(rate.0, rate.1);
            let op = d.next_op(ctx, wild);
            if d.step(ctx, &op)? == Did::Rejected {
                ctx.count(K::Misuse);
                ctx.count(K::PRejected);
            }
            if steps > 20_000 {
                ctx.count(K::Abandon);
                return Ok(());
            }
        }
        must!(!d.m.broken, "sim", "valid data refused by the model");
        must!(d.r.pos + 6 == d.r.data.len(), "consumed", "session with rejected calls consumed {} of {} bytes", d.r.pos, d.r.data.len() - 6);
        for _ in 0..ctx.below(3) {
            let op = d.next_op(ctx, true);
            d.step(ctx, &op)?;
        }
    }
    ctx.count(K::PFinished);
    Ok(())
}

// ---- S09 ----

pub fn completion_world(ctx: &Ctx) -> Run {
    if ctx.chance(1, 1500) {
        return giant(ctx, true);
    }
    let s = gen::schema(ctx, if ctx.chance(1, 2) { SAFE } else { PLAIN });
    describe(ctx, &s, None);
    let wild = *ctx.pick(&[(0u64, 2u64), (1, 8), (1, 3)]);
    let stop = if ctx.chance(1, 4) { ctx.below(40) } else { 300 };
    if stop < 40 {
        ctx.count(K::Abandon);
    }
    if ctx.chance(1, 2) {
        let fuel = *ctx.pick(&[6i64, 20, 60]);
        let mut w = SimWriter::new(ctx, 0, Manner::draw(ctx));
        if ctx.chance(1, 2) {
            w.fault = Some(draw_fault(ctx, WRITE_FKS, ctx.below(40)));
        }
        let mut e = EncSess::new(&s, CoderStateAlloc::new(), w, fuel);
        let mut extra = 3;
        for _ in 0..stop {
            if e.m.finished() || e.m.broken {
                if extra == 0 {
                    break;
                }
                extra -= 1;
            }
            let wild = e.m.finished() || e.m.broken || ctx.chance(wild.0, wild.1);
            let op = e.next_op(ctx, wild);
            e.step(ctx, &op)?;
        }
        if e.m.finished() {
            ctx.count(K::PFinished);
        }
    } else {
        let v = gen::value_fuel(ctx, &s, *ctx.pick(&[6i64, 20, 60]));
        let mut b = model::encode(&s, &v);
        b.truncate(20_000);
        match ctx.draw(4) {
            0 | 1 => {}
            2 => {
                damage(ctx, &mut b);
            }
            _ => {
                b.truncate(ctx.below(b.len() + 1));
                ctx.count(K::CutBytes);
            }
        }
        let mut r = SimReader::new(ctx, 1, b, Manner::draw(ctx));
        if ctx.chance(1, 3) && !r.data.is_empty() {
            r.fault = Some(draw_fault(ctx, READ_FKS, ctx.below(r.data.len())));
        }
        let mut d = DecSess::new(&s, CoderStateAlloc::new(), r);
        let mut extra = 3;
        for _ in 0..stop {
            if d.m.finished() || d.m.broken {
                if extra == 0 {
                    break;
                }
                extra -= 1;
            }
            let wild = d.m.finished() || d.m.broken || ctx.chance(wild.0, wild.1);
            let op = d.next_op(ctx, wild);
            d.step(ctx, &op)?;
        }
        if d.m.finished() {
            ctx.count(K::PFinished);
        }
    }
    Ok(())
}

// ---- S10 ----

enum Sess<'s> {
    E(EncSess<'s>),
    D(DecSess<'s>),
}

impl<'s> Sess<'s> {
    fn over(&self) -> bool {
        match self {
            Sess::E(e) => e.m.finished() || e.m.broken,
            Sess::D(d) => d.m.finished() || d.m.broken,
        }
    }
    fn into_alloc(self) -> CoderStateAlloc {
        match self {
            Sess::E(e) => e.st.into_alloc(),
            Sess::D(d) => d.st.into_alloc(),
        }
    }
}

/// Streams that may run whole sessions of their own within a call.
fn nesting(ctx: &Ctx) -> Manner {
    let mut m = Manner::draw(ctx);
    m.nest = *ctx.pick(&[0u64, 0, 1, 4]);
    m
}

fn pool_body(ctx: &Ctx) -> Run {
    let mut pool: Vec<CoderStateAlloc> = vec![];
    let mut uid = 0;
    for _ in 0..1 + ctx.below(3) {
        // schemas live for one round only; allocations outlive them
        // refusals are costly where a schema is very deep: their wording quotes it
        let deep = ctx.chance(1, 40);
        let schemas: Vec<Schema> = (0..1 + ctx.below(3)).map(|_| {
            let mut o = SAFE;
            o.big_enums = ctx.chance(1, 8);
            o.depth = *ctx.pick(&[4, 1, 8]);
            o.deep = deep;
            gen::schema(ctx, o)
        }).collect();
        let mut live: Vec<Sess> = vec![];
        let total = 2 + ctx.below(6);
        let mut started = 0;
        let mut steps = 0;
        let mut last = usize::MAX;
        while started < total || !live.is_empty() {
            steps += 1;
            if steps > 4_000 {
                // large values: the rest is abandoned
                ctx.count(K::Abandon);
                live.clear();
                break;
            }
            let act = ctx.draw(24);
            if started < total && (live.is_empty() || act < 4) {
                started += 1;
                let a = if pool.is_empty() || ctx.chance(1, 4) {
                    CoderStateAlloc::default()
                } else {
                    ctx.count(K::Recycle);
                    let i = ctx.below(pool.len());
                    pool.swap_remove(i)
                };
                let a = if ctx.chance(1, 8) {
                    // a clone is independent
                    ctx.count(K::CloneAlloc);
                    let c = a.clone();
                    if ctx.chance(1, 2) {
                        pool.push(a);
                        c
                    } else {
                        pool.push(c);
                        a
                    }
                } else {
                    a
                };
                let s = &schemas[ctx.below(schemas.len())];
                uid += 1;
                if ctx.chance(1, 2) {
                    let mut w = SimWriter::new(ctx, uid * 2, nesting(ctx));
                    match ctx.draw(6) {
                        0 => w.fault = Some(draw_fault(ctx, WRITE_FKS, ctx.below(30))),
                        1 => w.crash_at_call = Some(1 + ctx.draw(12)),
                        _ => {}
                    }
                    live.push(Sess::E(EncSess::new(s, a, w, *ctx.pick(&[6i64, 20, 80]))));
                } else {
                    let v = gen::value_fuel(ctx, s, *ctx.pick(&[6i64, 20, 80]));
                    let mut b = model::encode(s, &v);
                    b.truncate(4000);
                    if ctx.chance(1, 4) {
                        damage(ctx, &mut b);
                    }
                    let mut r = SimReader::new(ctx, uid * 2 + 1, b, nesting(ctx));
                    match ctx.draw(8) {
                        0 => r.fault = Some(draw_fault(ctx, READ_FKS, ctx.below(30))),
                        1 => r.crash_at_call = Some(1 + ctx.draw(12)),
                        _ => {}
                    }
                    live.push(Sess::D(DecSess::new(s, a, r)));
                }
                continue;
            }
            if act == 23 && !pool.is_empty() {
                ctx.count(K::DropAlloc);
                let i = ctx.below(pool.len());
                drop(pool.swap_remove(i));
                continue;
            }
            let i = ctx.below(live.len());
            if i != last {
                ctx.count(K::Switch);
                last = i;
            }
            if live[i].over() || act == 22 {
                if !live[i].over() {
                    ctx.count(K::Abandon);
                }
                let s = live.swap_remove(i);
                last = usize::MAX;
                if ctx.chance(3, 4) {
                    pool.push(s.into_alloc());
                } else {
                    ctx.count(K::DropAlloc);
                }
                continue;
            }
            let wild = ctx.chance(1, if deep { 300 } else { 12 });
            let n = 1 + ctx.below(4);
            let out = crashable(|| -> Run {
                for _ in 0..n {
                    if live[i].over() {
                        break;
                    }
                    match &mut live[i] {
                        Sess::E(e) => {
                            let op = e.next_op(ctx, wild);
                            e.step(ctx, &op)?;
                        }
                        Sess::D(d) => {
                            let op = d.next_op(ctx, wild);
                            d.step(ctx, &op)?;
                        }
                    }
                }
                Ok(())
            });
            match out {
                Some(r) => r?,
                None => {
                    // the session's owner unwound; its coder may still be recycled
                    let s = live.swap_remove(i);
                    last = usize::MAX;
                    if ctx.chance(1, 2) {
                        pool.push(s.into_alloc());
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn pool_world(ctx: &Ctx) -> Run {
    if ctx.chance(1, 1000) {
        return leak_free(ctx, climb, 1);
    }
    alloc::quarantine(true);
    let r = pool_inner(ctx);
    alloc::quarantine(false);
    r
}

fn pool_inner(ctx: &Ctx) -> Run {
    leak_free(ctx, pool_body, 4)
}

/// A body, and one time in some the same again, three times: what the last repetition still adds is leaked.
fn leak_free(ctx: &Ctx, body: fn(&Ctx) -> Run, one_in: u64) -> Run {
    let from = ctx.core().log.len();
    body(ctx)?;
    let log = {
        let _u = alloc::Unmetered::new();
        ctx.core().log[from..].to_vec()
    };
    if !ctx.chance(1, one_in) {
        return Ok(());
    }
    let mut grown = (0, 0);
    for _ in 0..3 {
        let _u = alloc::Unmetered::new();
        let again = Ctx::replay(log.clone(), false);
        drop(_u);
        let a = alloc::live();
        body(&again)?;
        let b = alloc::live();
        grown = (b.0 - a.0, b.1 - a.1);
    }
    must!(grown.0 <= 0 && grown.1 <= 0, "leak", "{} bytes in {} blocks leaked by one repetition", grown.0, grown.1);
    Ok(())
}

// ---- S11 ----

/// A log writer that misbehaves.
struct BadLog {
    ctx: Ctx,
    mood: u64,
    n: u64,
}

impl std::io::Write for BadLog {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let _u = alloc::Unmetered::new();
        self.n += 1;
        if b.is_empty() || self.mood == 0 {
            return Ok(b.len());
        }
        self.ctx.step();
        match self.ctx.draw(8) {
            0 | 1 => {
                self.ctx.count(K::LogErr);
                Err(std::io::Error::new(std::io::ErrorKind::Other, "log broke"))
            }
            2 => {
                self.ctx.count(K::LogZero);
                Ok(0)
            }
            3 => {
                self.ctx.count(K::LogEintr);
                Err(std::io::Error::from_raw_os_error(4))
            }
            4 => {
                self.ctx.count(K::LogShort);
                Ok(1)
            }
            _ => Ok(b.len()),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "log broke"))
    }
}

#[derive(PartialEq, Clone)]
struct Seen {
    call: String,
    result: String,
    finished: bool,
    /// address of the schema node
    need: Option<usize>,
    bytes: usize,
}

impl std::fmt::Debug for Seen {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{} -> {}, finished: {}, needs a value: {}, {} bytes moved", self.call, self.result, self.finished, self.need.is_some(), self.bytes)
    }
}

fn err_sig(e: &Error) -> String {
    format!("Err({:?}, {})", e.kind(), e.inner())
}

pub fn twin(ctx: &Ctx) -> Run {
    let giant = ctx.chance(1, 4000);
    let (mut s, big) = if giant {
        let (s, v) = gen::extreme(ctx);
        (s, Some(v))
    } else {
        (gen::schema(ctx, SAFE), None)
    };
    if !giant && ctx.chance(1, 6) {
        gen::plant_illegal(ctx, &mut s);
    }
    let s = s;
    describe(ctx, &s, None);
    let sub = ctx.draw(1 << 32);
    let manner = Manner::draw(ctx);
    let encode = ctx.chance(1, 2);
    let whole = ctx.chance(1, 4) || giant;
    let mut ops: Vec<Op> = vec![];
    let mut dops: Vec<DOp> = vec![];
    let mut data = vec![];
    let mut fault = None;
    let mut value = None;
    if let Some(v) = big {
        if encode {
            value = Some(v);
        } else {
            data = model::encode(&s, &v);
        }
    } else if encode {
        if ctx.chance(1, 3) {
            fault = Some(draw_fault(ctx, WRITE_FKS, ctx.below(40)));
        }
        let mut m = model::Machine::new(&s);
        let mut fuel = *ctx.pick(&[6i64, 30]);
        for _ in 0..150 {
            if m.finished() {
                break;
            }
            let op = if ctx.chance(1, 8) { wild_op(ctx, &m) } else { valid_op(ctx, &m, &mut fuel) };
            m.enc(&op);
            ops.push(op);
        }
        if whole && !gen_has_illegal(&s) {
            value = Some(gen::value_fuel(ctx, &s, 20));
        }
    } else if !gen_has_illegal(&s) {
        let v = gen::value_fuel(ctx, &s, *ctx.pick(&[6i64, 30]));
        data = model::encode(&s, &v);
        data.truncate(8000);
        if ctx.chance(1, 3) {
            damage(ctx, &mut data);
        }
        if ctx.chance(1, 4) {
            fault = Some(draw_fault(ctx, READ_FKS, ctx.below(data.len() + 1)));
        }
    } else {
        data = (0..ctx.below(60)).map(|_| ctx.draw(4) as u8).collect();
    }
    if !encode && !giant {
        let mut m = model::Machine::new(&s);
        let mut pos = 0;
        for _ in 0..150 {
            if m.finished() {
                break;
            }
            let op = if ctx.chance(1, 8) { wild_dop(ctx, &m) } else { valid_dop(ctx, &m) };
            if let model::Verdict::Accept((_, n)) = m.dec(&op, &data[pos..]) {
                pos += n;
            }
            dops.push(op);
        }
    }
    let path = dec_path(ctx);
    let epath = enc_path(ctx);
    let run = |log: Option<&mut BadLog>| -> (Vec<Seen>, Vec<u8>, usize) {
        let sctx = {
            let _u = alloc::Unmetered::new();
            Ctx::random(sub, false)
        };
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), log.map(|l| l as &mut dyn std::io::Write));
        let mut seen = vec![];
        let mut w = SimWriter::new(&sctx, 0, manner);
        let mut r = SimReader::new(&sctx, 1, data.clone(), manner);
        if encode {
            w.fault = fault;
            if let Some(v) = &value {
                let res = enc_all(&sctx, epath, &s, v, &mut st, &mut w);
                seen.push(Seen { call: "whole".into(), result: res.map_or_else(|e| err_sig(&e), |_| "Ok".into()), finished: st.is_finished(), need: None, bytes: w.sink.len() });
            } else {
                for op in &ops {
                    let res = enc_call(&sctx, &mut st, &mut w, op);
                    let need = Encoder::new(&mut st, &mut w).need().ok().map(|x| x as *const _ as usize);
                    seen.push(Seen { call: short(&format!("{:?}", op)), result: res.map_or_else(|e| err_sig(&e), |_| "Ok".into()), finished: st.is_finished(), need, bytes: w.sink.len() });
                }
            }
        } else {
            r.fault = fault;
            if whole {
                let res = dec_all(&sctx, path, &s, &mut st, &mut r);
                seen.push(Seen { call: "whole".into(), result: res.map_or_else(|e| err_sig(&e), |v| format!("{:?}", v)), finished: st.is_finished(), need: None, bytes: r.pos });
            } else {
                for op in &dops {
                    let res = dec_call(&sctx, &mut st, &mut r, op, &mut Bufs::dirty());
                    let need = Decoder::new(&mut st, &mut r).need().ok().map(|x| x as *const _ as usize);
                    seen.push(Seen { call: short(&format!("{:?}", op)), result: res.map_or_else(|e| err_sig(&e), |v| format!("{:?}", v)), finished: st.is_finished(), need, bytes: r.pos });
                }
            }
        }
        (seen, w.sink, r.pos)
    };
    if whole && !encode && !giant && !gen::tame(&s) {
        return Ok(());
    }
    let bare = run(None);
    let mood = if giant { 0 } else { ctx.draw(4) };
    let mut log = BadLog { ctx: ctx.clone(), mood, n: 0 };
    let logged = run(Some(&mut log));
    ctx.ev(34, log.n, mood, || format!("{} calls, {} log writes", bare.0.len(), log.n));
    for (i, (a, b)) in bare.0.iter().zip(&logged.0).enumerate() {
        ctx.ev(35, i as u64, a.bytes as u64, || format!("  {} -> {} | with log {}", a.call, short(&a.result), short(&b.result)));
        must!(a == b, "log-changed-coding", "call {} {}: without a log {:?}, with a log {:?}", i, a.call, short(&format!("{:?}", a)), short(&format!("{:?}", b)));
    }
    must!(bare.1 == logged.1, "log-changed-bytes", "bytes written differ with a log: {:02x?} and {:02x?}", clip(&bare.1), clip(&logged.1));
    must!(bare.2 == logged.2, "log-changed-bytes", "bytes read differ with a log: {} and {}", bare.2, logged.2);
    Ok(())
}

pub fn gen_has_illegal(s: &Schema) -> bool {
    let mut any = false;
    gen::walk(s, 0, &mut |s, d| {
        if let Schema::Recurse(n) = s {
            any |= *n == 0 || *n > d;
        }
    });
    any
}

// ---- S14 ----

/// An illegal step that only a long history gets to: far down, or after many turns of legal recursion.
fn far_outlaw(ctx: &Ctx) -> Run {
    let salt = ctx.draw(1 << 16);
    let n = *ctx.pick(&[30usize, 63, 64, 100, 127, 128, 129, 255, 256, 257, 300, 400]);
    let turns = ctx.chance(1, 2);
    // depth of the illegal one
    let d = if turns { 1 } else { n };
    let bad = match ctx.draw(4) {
        0 => 0,
        1 => d + 1,
        2 => d + 1 + ctx.below(n),
        _ => (1usize << *ctx.pick(&[9, 16, 31, 32, 53, 63])) + ctx.below(n + 1),
    };
    let num = Value::Scalar(binschema::value::ScalarValue::U8(1));
    let build = |end: Schema| {
        if turns {
            Schema::Enum(vec![("End".to_string(), end).into(), ("More".to_string(), Schema::Option(Box::new(Schema::Recurse(2)))).into()])
        } else {
            let kind = salt % 7;
            let (mut s, mut v) = (end, num.clone());
            for i in 0..n {
                (s, v) = gen::layer(if kind == 6 { mix(salt ^ i as u64) % 6 } else { kind }, s, v);
            }
            s
        }
    };
    let s = build(Schema::Recurse(bad));
    let like = build(Schema::Scalar(binschema::ScalarType::U8));
    let mut v = num.clone();
    if turns {
        v = Value::Enum(binschema::value::EnumValue { variant_ord: 0, variant_name: "End".into(), value: Box::new(v) });
        for _ in 0..n {
            v = Value::Enum(binschema::value::EnumValue { variant_ord: 1, variant_name: "More".into(), value: Box::new(Value::Option(Some(Box::new(v)))) });
        }
    } else {
        let kind = salt % 7;
        for i in 0..n {
            v = gen::layer(if kind == 6 { mix(salt ^ i as u64) % 6 } else { kind }, Schema::Unit, v).1;
        }
    }
    describe(ctx, &s, None);
    let mut hit = false;
    match ctx.draw(3) {
        0 => {
            let mut e = EncSess::new(&s, CoderStateAlloc::new(), SimWriter::new(ctx, 0, Manner::draw(ctx)), 6);
            for (op, _) in model::flatten(&like, &v) {
                if e.step(ctx, &op)? == Did::Failed {
                    hit = true;
                    break;
                }
            }
            for _ in 0..3 {
                let op = e.next_op(ctx, true);
                e.step(ctx, &op)?;
            }
        }
        1 => {
            let mut b = model::encode(&like, &v);
            b.extend([1, 0, 1, 0]);
            let mut d = DecSess::new(&s, CoderStateAlloc::new(), SimReader::new(ctx, 1, b, Manner::draw(ctx)));
            while !d.m.finished() && !d.m.broken {
                let op = d.next_op(ctx, false);
                hit = d.step(ctx, &op)? == Did::Failed;
            }
            for _ in 0..3 {
                let op = d.next_op(ctx, true);
                d.step(ctx, &op)?;
            }
        }
        _ => {
            let mut b = model::encode(&like, &v);
            b.extend([1, 0, 1, 0]);
            let want = model::decode(&s, &b);
            let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
            let mut r = SimReader::new(ctx, 1, b, Manner::draw(ctx));
            let p = dec_path(ctx);
            let got = dec_all(ctx, p, &s, &mut st, &mut r);
            hit = got.is_err();
            judge(ctx, &format!("{:?}", p), &got, &mut st, &mut r, 0, &want)?;
        }
    }
    must!(hit, "illegal-accepted", "a whole message was coded through an illegal step");
    ctx.count(K::PIllegalHit);
    ctx.count(K::PFarOutlaw);
    Ok(())
}

pub fn outlaw(ctx: &Ctx) -> Run {
    if ctx.chance(1, 12_000) {
        return climb(ctx);
    }
    if ctx.chance(1, 500) {
        return far_outlaw(ctx);
    }
    let mut o = SAFE;
    o.empty_enums = false;
    let mut s = gen::schema(ctx, o);
    if !gen::plant_illegal(ctx, &mut s) {
        return Ok(());
    }
    let s = s;
    describe(ctx, &s, None);
    let wild = *ctx.pick(&[(0u64, 2u64), (1, 8), (1, 3)]);
    match ctx.draw(3) {
        0 => {
            let fuel = *ctx.pick(&[6i64, 20, 60]);
            let mut e = EncSess::new(&s, CoderStateAlloc::new(), SimWriter::new(ctx, 0, Manner::draw(ctx)), fuel);
            let mut extra = 3;
            if ctx.chance(1, 3) {
                root_need(&s, e.st_need())?;
            }
            for _ in 0..200 {
                if e.m.finished() || e.m.broken {
                    if extra == 0 {
                        break;
                    }
                    extra -= 1;
                }
                let wild = e.m.finished() || e.m.broken || ctx.chance(wild.0, wild.1);
                let op = e.next_op(ctx, wild);
                if e.step(ctx, &op)? == Did::Failed {
                    ctx.count(K::PIllegalHit);
                }
            }
        }
        1 => {
            let data: Vec<u8> = (0..ctx.below(200)).map(|_| if ctx.chance(1, 8) { ctx.draw(256) as u8 } else { ctx.draw(3) as u8 }).collect();
            let mut d = DecSess::new(&s, CoderStateAlloc::new(), SimReader::new(ctx, 1, data, Manner::draw(ctx)));
            let mut extra = 3;
            if ctx.chance(1, 3) {
                root_need(&s, d.st_need())?;
            }
            for _ in 0..200 {
                if d.m.finished() || d.m.broken {
                    if extra == 0 {
                        break;
                    }
                    extra -= 1;
                }
                let wild = d.m.finished() || d.m.broken || ctx.chance(wild.0, wild.1);
                let op = d.next_op(ctx, wild);
                d.step(ctx, &op)?;
            }
        }
        _ => {
            if !gen::tame(&s) {
                return Ok(());
            }
            let data: Vec<u8> = (0..ctx.below(200)).map(|_| if ctx.chance(1, 8) { ctx.draw(256) as u8 } else { ctx.draw(3) as u8 }).collect();
            let want = model::decode(&s, &data);
            let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
            let mut r = SimReader::new(ctx, 1, data, Manner::draw(ctx));
            let p = dec_path(ctx);
            let got = dec_all(ctx, p, &s, &mut st, &mut r);
            if let (Err(Bad::Illegal), Err(e)) = (&want.0, &got) {
                must!(e.kind() == ErrorKind::IllegalSchema, "illegal-kind", "{:?}: reported {}", p, show(&got));
                must!(r.pos <= want.1, "illegal-read", "{:?}: read into the refused item", p);
                if matches!(s, Schema::Recurse(_)) {
                    // refused by need(), which is no coding call
                    return Ok(());
                }
            }
            judge(ctx, &format!("{:?}", p), &got, &mut st, &mut r, 0, &want)?;
        }
    }
    Ok(())
}

fn root_need(s: &Schema, need: Result<&Schema, Error>) -> Run {
    if matches!(s, Schema::Recurse(_)) {
        match need {
            Ok(x) => return bad("illegal-accepted", format!("need() of an illegal root returned {:?}", x)),
            Err(e) => must!(e.kind() == ErrorKind::IllegalSchema, "illegal-kind", "need() of an illegal root reported {:?}", e.kind()),
        }
    }
    Ok(())
}

impl<'s> EncSess<'s> {
    fn st_need(&mut self) -> Result<&'s Schema, Error> {
        Encoder::new(&mut self.st, &mut self.w).need()
    }
}
impl<'s> DecSess<'s> {
    fn st_need(&mut self) -> Result<&'s Schema, Error> {
        Decoder::new(&mut self.st, &mut self.r).need()
    }
}
