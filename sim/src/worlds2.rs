//! Worlds of several parties, of durable state, and of schemas that travel.

use crate::ctx::{Ctx, Run, Violation, K};
use crate::gen::{self, PLAIN, SAFE};
use crate::kernel::{self, Body, Kernel, LinkManner};
use crate::model::{self, to_dops, Bad, DOp, Machine, Op, Res};
use crate::must;
use crate::paths::*;
use crate::sess::*;
use crate::stream::*;
use crate::worlds::{crashable, describe, end_state, equal, judge, Pool};
use binschema::error::{Error, ErrorKind};
use binschema::value::{EnumValue, ScalarValue, StructValueField, Value};
use binschema::{CoderState, CoderStateAlloc, Decoder, Encoder, EnumSchemaVariant, KnownSchema, ScalarType, Schema, SeqSchema, StructSchemaField};
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::sync::Mutex;

// ---- S03 ----

fn expect_res(op: &Op, d: &DOp) -> Res {
    match (op, d) {
        (Op::Scalar(s), _) => Res::Scalar(*s),
        (Op::Str(s), _) => Res::Str(s.clone()),
        (Op::Bytes(s), _) => Res::Bytes(s.clone()),
        (Op::None_, _) => Res::Some_(false),
        (Op::Some_, _) => Res::Some_(true),
        (Op::VarSeq(n), _) => Res::Len(*n),
        (Op::Enum(o, _), DOp::Enum) => Res::Ord(*o),
        _ => Res::Nothing,
    }
}

/// A buffer-filling variant of a call, now and then.
fn vary(ctx: &Ctx, d: DOp) -> DOp {
    match d {
        DOp::Str if ctx.chance(1, 2) => DOp::StrInto,
        DOp::Bytes if ctx.chance(1, 2) => DOp::BytesInto,
        d => d,
    }
}

pub fn manner(ctx: &Ctx) -> LinkManner {
    LinkManner { frag: ctx.draw(4) as u8, eintr: *ctx.pick(&[0u64, 0, 1, 4]), max_latency: *ctx.pick(&[0u64, 0, 50, 2000]), stall: *ctx.pick(&[0u64, 0, 0, 300_000]) }
}

pub fn caps(ctx: &Ctx) -> usize {
    *ctx.pick(&[1usize << 20, 1, 2, 7, 64, 1024])
}

fn small_msgs(ctx: &Ctx, schemas: &[Schema], max: usize) -> Vec<(usize, Value)> {
    (0..1 + ctx.below(max))
        .map(|_| {
            let i = ctx.below(schemas.len());
            let fuel = *ctx.pick(&[6i64, 20, 50]);
            (i, gen::value_fuel(ctx, &schemas[i], fuel))
        })
        .collect()
}

pub fn line(ctx: &Ctx) -> Run {
    let mut o = PLAIN;
    o.big_enums = ctx.chance(1, 8);
    if ctx.chance(1, 2000) {
        // something huge, and something small behind it
        let (s, v) = gen::extreme(ctx);
        let t = gen::schema(ctx, o);
        let w = gen::value_fuel(ctx, &t, 6);
        return line_alone(ctx, &[s, t], &[(0, v), (1, w)]);
    }
    let schemas: Vec<Schema> = (0..1 + ctx.below(3)).map(|_| gen::schema(ctx, o)).collect();
    let msgs = small_msgs(ctx, &schemas, 4);
    for (i, v) in &msgs {
        describe(ctx, &schemas[*i], Some(v));
    }
    if msgs.iter().map(|(i, v)| model::encode(&schemas[*i], v).len()).sum::<usize>() > 12_000 {
        return line_alone(ctx, &schemas, &msgs);
    }
    match ctx.draw(6) {
        0 => line_alone(ctx, &schemas, &msgs),
        1 => line_pipe(ctx, &schemas, &msgs),
        2 | 3 => line_step(ctx, &schemas, &msgs),
        4 => line_talk(ctx, &schemas, &msgs),
        _ => line_duplex(ctx, &schemas, &msgs),
    }
}

/// One thread, every call given exactly its own bytes and a trap behind them.
fn line_alone(ctx: &Ctx, schemas: &[Schema], msgs: &[(usize, Value)]) -> Run {
    let mut w = SimWriter::new(ctx, 0, Manner::draw(ctx));
    let mut pool = Pool(vec![]);
    for (i, v) in msgs {
        let mut st = CoderState::new(&schemas[*i], pool.take(ctx), None);
        for (op, b) in model::flatten(&schemas[*i], v) {
            let at = w.sink.len();
            let r = enc_call(ctx, &mut st, &mut w, &op);
            must!(r.is_ok(), "encode-failed", "{:?}: {}", op, show(&r));
            must!(w.sink[at..] == b[..], "enc-bytes", "encoder.{} handed over {:02x?}, its item is {:02x?}", short(&format!("{:?}", op)), clip(&w.sink[at..]), clip(&b));
        }
        must!(st.is_finished(), "not-finished", "encoder not finished");
        pool.give(ctx, st);
    }
    let mut r = SimReader::new(ctx, 1, w.sink, Manner::draw(ctx));
    // or nothing: then what lies behind is there for the taking
    let trap = ctx.chance(1, 2);
    for (i, v) in msgs {
        let s = &schemas[*i];
        let mut st = CoderState::new(s, pool.take(ctx), None);
        let mut m = Machine::new(s);
        let mut bufs = Bufs::dirty();
        let _ = v;
        while !m.finished() {
            let op = valid_dop(ctx, &m);
            let n = match m.dec(&op, r.rest()) {
                model::Verdict::Accept((_, n)) => n,
                other => return bad("sim", format!("model refuses its own message: {:?}", other)),
            };
            let at = r.pos;
            if trap {
                r.fault = Some(Fault { at: at + n, kind: FK::WouldBlock, sticky: false, tag: 0 });
            }
            let got = dec_call(ctx, &mut st, &mut r, &op, &mut bufs);
            must!(!r.failed, "waited-beyond", "decoder.{} asked for more than its {} bytes", short(&format!("{:?}", op)), n);
            must!(got.is_ok(), "decode-failed", "{:?}: {}", op, show(&got));
            must!(r.pos == at + n, "dec-bytes", "decoder.{} consumed {} bytes, its item has {}", short(&format!("{:?}", op)), r.pos - at, n);
        }
        must!(st.is_finished(), "not-finished", "decoder not finished");
        pool.give(ctx, st);
    }
    ctx.count(K::PFinished);
    Ok(())
}

fn send_all(ctx: &Ctx, k: &Kernel, l: usize, man: LinkManner, schemas: &[Schema], msgs: &[(usize, Value)]) -> Run {
    let mut e = k.end(l, man, None);
    let mut pool = Pool(vec![]);
    for (i, v) in msgs {
        let at = e.moved;
        let mut st = CoderState::new(&schemas[*i], pool.take(ctx), None);
        let r = enc_all(ctx, enc_path(ctx), &schemas[*i], v, &mut st, &mut e);
        must!(r.is_ok() && st.is_finished(), "encode-failed", "encode over the link: {}", show(&r));
        let n = model::encode(&schemas[*i], v).len() as u64;
        must!(e.moved - at == n, "enc-bytes", "encode returned with {} of {} bytes handed over", e.moved - at, n);
        pool.give(ctx, st);
    }
    Ok(())
}

fn recv_all(ctx: &Ctx, k: &Kernel, l: usize, man: LinkManner, schemas: &[Schema], msgs: &[(usize, Value)]) -> Run {
    let mut e = k.end(l, man, None);
    let mut pool = Pool(vec![]);
    for (i, v) in msgs {
        let at = e.moved;
        let mut st = CoderState::new(&schemas[*i], pool.take(ctx), None);
        let p = dec_path(ctx);
        let r = dec_all(ctx, p, &schemas[*i], &mut st, &mut e);
        match &r {
            Err(_) => return bad("decode-failed", format!("{:?} over the link: {}", p, show(&r))),
            Ok(g) => equal(&format!("{:?}", p), g, v)?,
        }
        must!(st.is_finished(), "not-finished", "decoder not finished");
        let n = model::encode(&schemas[*i], v).len() as u64;
        must!(e.moved - at == n, "dec-bytes", "{:?}: decode consumed {} bytes of a {} byte message", p, e.moved - at, n);
        ctx.count(K::PFinished);
        pool.give(ctx, st);
    }
    Ok(())
}

/// The link every task of a world can rely on being there, made by the first task to run.
fn link_at(k: &Kernel, cap: usize, want: usize) -> usize {
    while k.links() <= want {
        k.link(cap);
    }
    want
}

fn line_pipe(ctx: &Ctx, schemas: &[Schema], msgs: &[(usize, Value)]) -> Run {
    let (cap, ma, mb, close) = (caps(ctx), manner(ctx), manner(ctx), ctx.chance(1, 2));
    kernel::run(
        ctx,
        0,
        vec![
            ("sender", Box::new(move |k: Kernel| {
                let l = link_at(&k, cap, 0);
                send_all(&k.sh.ctx.clone(), &k, l, ma, schemas, msgs)?;
                if close {
                    k.close(l);
                }
                Ok(())
            }) as Body),
            ("receiver", Box::new(move |k: Kernel| {
                let l = link_at(&k, cap, 0);
                recv_all(&k.sh.ctx.clone(), &k, l, mb, schemas, msgs)?;
                must!(k.leftover(l) == 0, "leftover", "{} bytes left on the link", k.leftover(l));
                Ok(())
            })),
        ],
    )
}

/// Both directions at once, pipelined.
fn line_duplex(ctx: &Ctx, schemas: &[Schema], msgs: &[(usize, Value)]) -> Run {
    let (cap, man) = (caps(ctx), manner(ctx));
    let back = small_msgs(ctx, schemas, 3);
    if back.iter().map(|(i, v)| model::encode(&schemas[*i], v).len()).sum::<usize>() > 12_000 {
        return Ok(());
    }
    let back = &back;
    let mut tasks: Vec<(&'static str, Body)> = vec![];
    for (n, (name_s, name_r, ms)) in [("a-sender", "b-receiver", msgs), ("b-sender", "a-receiver", &back[..])].into_iter().enumerate() {
        tasks.push((name_s, Box::new(move |k: Kernel| {
            let l = link_at(&k, cap, n);
            send_all(&k.sh.ctx.clone(), &k, l, man, schemas, ms)
        })));
        tasks.push((name_r, Box::new(move |k: Kernel| {
            let l = link_at(&k, cap, n);
            recv_all(&k.sh.ctx.clone(), &k, l, man, schemas, ms)
        })));
    }
    kernel::run(ctx, 0, tasks)
}

/// Request and response, alternating on one connection.
fn line_talk(ctx: &Ctx, schemas: &[Schema], msgs: &[(usize, Value)]) -> Run {
    let (cap, ma, mb) = (caps(ctx), manner(ctx), manner(ctx));
    let answers: Vec<(usize, Value)> = msgs.iter().map(|_| small_msgs(ctx, schemas, 1).remove(0)).collect();
    if answers.iter().map(|(i, v)| model::encode(&schemas[*i], v).len()).sum::<usize>() > 12_000 {
        return Ok(());
    }
    let answers = &answers;
    kernel::run(
        ctx,
        0,
        vec![
            ("client", Box::new(move |k: Kernel| {
                let ctx = k.sh.ctx.clone();
                let (up, down) = (link_at(&k, cap, 0), link_at(&k, cap, 1));
                for i in 0..msgs.len() {
                    send_all(&ctx, &k, up, ma, schemas, &msgs[i..i + 1])?;
                    recv_all(&ctx, &k, down, ma, schemas, &answers[i..i + 1])?;
                }
                Ok(())
            }) as Body),
            ("server", Box::new(move |k: Kernel| {
                let ctx = k.sh.ctx.clone();
                let (up, down) = (link_at(&k, cap, 0), link_at(&k, cap, 1));
                for i in 0..msgs.len() {
                    recv_all(&ctx, &k, up, mb, schemas, &msgs[i..i + 1])?;
                    send_all(&ctx, &k, down, mb, schemas, &answers[i..i + 1])?;
                }
                Ok(())
            })),
        ],
    )
}

/// Call by call, several messages woven over one stream, every call acknowledged before the next.
fn line_step(ctx: &Ctx, schemas: &[Schema], msgs: &[(usize, Value)]) -> Run {
    let (cap, ma, mb) = (caps(ctx), manner(ctx), manner(ctx));
    let ops: Vec<Vec<(Op, Vec<u8>)>> = msgs.iter().map(|(i, v)| model::flatten(&schemas[*i], v)).collect();
    if ops.iter().map(|o| o.len()).sum::<usize>() > 400 {
        return line_pipe(ctx, schemas, msgs);
    }
    let mut next = vec![0; ops.len()];
    let mut plan = vec![];
    loop {
        let open: Vec<usize> = (0..ops.len()).filter(|i| next[*i] < ops[*i].len()).collect();
        if open.is_empty() {
            break;
        }
        let i = *ctx.pick(&open);
        plan.push((i, next[i]));
        next[i] += 1;
    }
    let (ops, plan) = (&ops, &plan);
    kernel::run(
        ctx,
        0,
        vec![
            ("encoder", Box::new(move |k: Kernel| {
                let ctx = k.sh.ctx.clone();
                let mut out = k.end(link_at(&k, cap, 0), ma, None);
                let mut ack = k.end(link_at(&k, cap, 1), ma, None);
                let mut sts: Vec<CoderState> = msgs.iter().map(|(i, _)| CoderState::new(&schemas[*i], CoderStateAlloc::new(), None)).collect();
                for (i, j) in plan {
                    let (op, b) = &ops[*i][*j];
                    let at = out.moved;
                    let r = enc_call(&ctx, &mut sts[*i], &mut out, op);
                    must!(r.is_ok(), "encode-failed", "{:?}: {}", op, show(&r));
                    must!(out.moved - at == b.len() as u64, "enc-bytes", "encoder.{} handed over {} bytes, its item has {}", short(&format!("{:?}", op)), out.moved - at, b.len());
                    let mut one = [0];
                    must!(ack.read_exact(&mut one).is_ok(), "sim", "ack");
                }
                for st in &sts {
                    end_state(st, true)?;
                }
                Ok(())
            }) as Body),
            ("decoder", Box::new(move |k: Kernel| {
                let ctx = k.sh.ctx.clone();
                let mut inp = k.end(link_at(&k, cap, 0), mb, None);
                let mut ack = k.end(link_at(&k, cap, 1), mb, None);
                let mut sts: Vec<CoderState> = msgs.iter().map(|(i, _)| CoderState::new(&schemas[*i], CoderStateAlloc::new(), None)).collect();
                let mut bufs = Bufs::dirty();
                for (i, j) in plan {
                    let (op, b) = &ops[*i][*j];
                    let at = inp.moved;
                    for d in to_dops(op) {
                        let want = expect_res(op, &d);
                        let d = vary(&ctx, d);
                        let r = dec_call(&ctx, &mut sts[*i], &mut inp, &d, &mut bufs);
                        match &r {
                            Ok(got) => must!(got.same(&want), "value", "decoder.{:?} returned {}, sent {:?}", d, show(&r), want),
                            Err(_) => return bad("decode-failed", format!("decoder.{:?}: {}", d, show(&r))),
                        }
                    }
                    must!(inp.moved - at == b.len() as u64, "dec-bytes", "decoder of {} consumed {} bytes, the item has {}", short(&format!("{:?}", op)), inp.moved - at, b.len());
                    must!(ack.write_all(&[1]).is_ok(), "sim", "ack");
                }
                for st in &sts {
                    end_state(st, true)?;
                }
                ctx.count(K::PFinished);
                Ok(())
            })),
        ],
    )
}

// ---- S06 ----

/// An append-only file: what was written, and how much of it a crash cannot take.
struct Disk {
    bytes: Vec<u8>,
    durable: usize,
}

impl Disk {
    fn crash(&mut self, ctx: &Ctx) {
        ctx.count(K::DiskCrash);
        let tail = self.bytes.len() - self.durable;
        let keep = match ctx.draw(4) {
            0 => tail,
            1 => 0,
            _ => ctx.below(tail + 1),
        };
        if keep < tail {
            ctx.count(if keep == 0 { K::LostTail } else { K::TornTail });
        }
        self.bytes.truncate(self.durable + keep);
        ctx.ev(70, self.durable as u64, keep as u64, || format!("CRASH: disk keeps {} durable bytes and {} of {} more", self.durable, keep, tail));
    }
}

fn record(seq: u32, body: Value) -> Value {
    Value::Struct(vec![
        StructValueField { name: "seq".into(), value: Value::Scalar(ScalarValue::U32(seq)) },
        StructValueField { name: "body".into(), value: body },
    ])
}

/// Write a message to the log. The bytes accepted reach the disk whatever happens to the writer.
fn append(ctx: &Ctx, disk: &mut Disk, path: Option<EncPath>, s: &Schema, v: &Value, alloc: CoderStateAlloc, fault: Option<Fault>, crash_at: Option<u64>, head: Option<&Schema>) -> Option<(Result<(), Error>, CoderStateAlloc)> {
    let mut w = SimWriter::new(ctx, 0, Manner::draw(ctx));
    w.fault = fault;
    w.crash_at_call = crash_at;
    let out = crashable(|| {
        let mut st = CoderState::new(s, alloc, None);
        let r = match (path, head) {
            (None, Some(h)) => h.serialize(&mut Encoder::new(&mut st, &mut w)),
            (p, _) => enc_all(ctx, p.unwrap_or(EncPath::Value), s, v, &mut st, &mut w),
        };
        let fin = st.is_finished();
        (r, fin, st.into_alloc())
    });
    disk.bytes.extend_from_slice(&w.sink);
    let (r, fin, a) = out?;
    if r.is_ok() != fin {
        return Some((Err(Error::other(format!("sim: encode returned {} but is_finished() = {}", show(&r), fin))), a));
    }
    Some((r, a))
}

/// A message of which the end is missing.
fn torn(ctx: &Ctx, s: Schema, v: Value) -> Run {
    describe(ctx, &s, Some(&v));
    let b = model::encode(&s, &v);
    if b.is_empty() {
        return Ok(());
    }
    let cut = match ctx.draw(4) {
        0 => b.len() - 1 - ctx.below(b.len().min(16)),
        1 if b.len() > 1 << 16 => ((1 + ctx.below(b.len() >> 16)) << 16).saturating_sub(ctx.below(8)).min(b.len() - 1),
        _ => ctx.below(b.len()),
    };
    ctx.count(K::CutBytes);
    let b = b[..cut].to_vec();
    ctx.ev(50, cut as u64, 0, || format!("cut to {} bytes", cut));
    let want = model::decode(&s, &b);
    must!(want.0.is_err(), "sim", "the model takes a torn message for a whole one");
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut r = SimReader::new(ctx, 1, b, Manner::draw(ctx));
    let p = dec_path(ctx);
    let got = dec_all(ctx, p, &s, &mut st, &mut r);
    judge(ctx, &format!("{:?}", p), &got, &mut st, &mut r, 0, &want)
}

pub fn wal(ctx: &Ctx) -> Run {
    if ctx.chance(1, 2500) {
        let (s, v) = gen::extreme(ctx);
        return torn(ctx, s, v);
    }
    if ctx.chance(1, 3) {
        // a message by itself
        let s = gen::schema(ctx, SAFE);
        let v = gen::value(ctx, &s);
        return torn(ctx, s, v);
    }
    let mut o = PLAIN;
    o.big_enums = false;
    let mut body = gen::schema(ctx, o);
    if ctx.chance(1, 12) {
        // a record that ends in an ordinal of one or two bytes
        let n = *ctx.pick(&[200usize, 256, 257, 300, 600]);
        body = Schema::Tuple(vec![body, Schema::Enum((0..n).map(|i| (format!("{}", i), Schema::Unit).into()).collect())]);
    }
    let rec = Schema::Struct(vec![
        StructSchemaField { name: "seq".into(), inner: Schema::Scalar(ScalarType::U32) },
        StructSchemaField { name: "body".into(), inner: body.clone() },
    ]);
    describe(ctx, &rec, None);
    let m = meta();
    let head_value = schema_value(&rec);
    let head = model::encode(&m, &head_value);
    let lib_meta = Schema::schema(Default::default());
    let mut disk = Disk { bytes: vec![], durable: 0 };
    // every message whose bytes lie on the disk in order, the last one perhaps in part
    let mut layout: Vec<(Value, usize)> = vec![];
    let mut acked = 0;
    let mut head_acked = false;
    let mut seq = 0u32;
    let generations = 1 + ctx.below(5);
    for g in 0..=generations {
        let mut pool = Pool(vec![]);
        if g > 0 {
            ctx.count(K::Restart);
        }
        // ---- recovery ----
        let known;
        let mut tries = 0;
        'again: loop {
            tries += 1;
            let mut r = SimReader::new(ctx, 1, disk.bytes.clone(), Manner::draw(ctx));
            if tries < 3 && !r.data.is_empty() && ctx.chance(1, 6) {
                r.fault = Some(draw_fault(ctx, &[FK::Other, FK::TimedOut, FK::Reset, FK::InvalidData], ctx.below(r.data.len())));
            }
            let f = r.fault;
            if r.data.is_empty() {
                must!(!head_acked && acked == 0, "lost", "the disk is empty though the header was synced");
                known = None;
                break;
            }
            // the header says how to read the rest
            let mut st = CoderState::new(&lib_meta, pool.take(ctx), None);
            let p = if ctx.chance(1, 2) { None } else { Some(dec_path_val(ctx)) };
            let got: Result<Schema, Error> = match p {
                None => Schema::deserialize(&mut Decoder::new(&mut st, &mut r)),
                Some(p) => dec_all(ctx, p, &lib_meta, &mut st, &mut r).and_then(|v| value_schema(&v.unwrap()).ok_or_else(|| Error::other("sim: no schema"))),
            };
            if let (Some(f), true) = (f, r.failed) {
                must!(matches!(&got, Err(e) if e.kind() == ErrorKind::Io && f.carried_by(e)), "failure-cause", "reading the header over {:?}: {}", f, show(&got));
                continue 'again;
            }
            if disk.bytes.len() < head.len() {
                must!(!head_acked && acked == 0, "lost", "the synced header is torn");
                match &got {
                    Ok(s) => return bad("torn-accepted", format!("{} of {} header bytes decoded to {:?}", disk.bytes.len(), head.len(), s)),
                    Err(e) => must!(is_eof_error(e), "torn-kind", "torn header reported as {}", show(&got)),
                }
                end_state(&st, false)?;
                ctx.count(K::PTruncated);
                known = None;
                break;
            }
            let s = match got {
                Err(_) => return bad("decode-failed", format!("whole header refused: {}", show(&got))),
                Ok(s) => s,
            };
            must!(s == rec, "schema", "recovered schema {:?} is not {:?}", s, rec);
            must!(r.pos == head.len(), "consumed", "header decode consumed {} of {} bytes", r.pos, head.len());
            pool.give(ctx, st);
            // the records
            let mut end = head.len();
            let whole = layout.iter().take_while(|(_, n)| {
                end += n;
                end <= disk.bytes.len()
            });
            let whole = whole.count();
            must!(whole >= acked, "sim", "disk model lost synced bytes");
            let mut n = 0;
            let mut valid = r.pos;
            let mut redo = false;
            while r.pos < r.data.len() {
                let mut st = CoderState::new(&s, pool.take(ctx), None);
                let p = dec_path(ctx);
                let got = dec_all(ctx, p, &s, &mut st, &mut r);
                if let (Some(f), true) = (f, r.failed) {
                    must!(matches!(&got, Err(e) if e.kind() == ErrorKind::Io && f.carried_by(e)), "failure-cause", "reading record {} over {:?}: {}", n, f, show(&got));
                    end_state(&st, false)?;
                    redo = true;
                    break;
                }
                match &got {
                    Ok(g) => {
                        must!(n < whole, "torn-accepted", "{:?}: torn record {} decoded to {}", p, n, show(&got));
                        equal(&format!("record {} through {:?}", n, p), g, &layout[n].0)?;
                        must!(r.pos == valid + layout[n].1, "consumed", "{:?}: record {} consumed {} of {} bytes", p, n, r.pos - valid, layout[n].1);
                        end_state(&st, true)?;
                        valid = r.pos;
                        n += 1;
                        pool.give(ctx, st);
                    }
                    Err(e) => {
                        must!(n == whole, "lost", "{:?}: whole record {} of {} refused: {}", p, n, whole, show(&got));
                        must!(is_eof_error(e), "torn-kind", "{:?}: torn record reported as {}", p, show(&got));
                        end_state(&st, false)?;
                        ctx.count(K::PTruncated);
                        break;
                    }
                }
            }
            if redo {
                continue 'again;
            }
            must!(n == whole, "lost", "{} of {} whole records recovered", n, whole);
            layout.truncate(n);
            disk.bytes.truncate(valid);
            disk.durable = disk.durable.min(valid);
            known = Some(s);
            if g > 0 {
                ctx.count(K::PRecovered);
            }
            break;
        }
        if g == generations {
            break;
        }
        // ---- service, until the next crash ----
        let s = match known {
            Some(s) => s,
            None => {
                disk.bytes.clear();
                disk.durable = 0;
                layout.clear();
                let crash = if ctx.chance(1, 6) { Some(1 + ctx.draw(40)) } else { None };
                let path = if ctx.chance(1, 2) { None } else { Some(enc_path(ctx)) };
                match append(ctx, &mut disk, path, &lib_meta, &head_value, pool.take(ctx), None, crash, Some(&rec)) {
                    None => {
                        disk.crash(ctx);
                        continue;
                    }
                    Some((r, _)) => must!(r.is_ok(), "encode-failed", "header: {}", show(&r)),
                }
                must!(disk.bytes == head, "header-bytes", "header is {:02x?}, expected {:02x?}", clip(&disk.bytes), clip(&head));
                rec.clone()
            }
        };
        let mut crashed = false;
        for _ in 0..1 + ctx.below(6) {
            match ctx.draw(5) {
                0 => {
                    disk.durable = disk.bytes.len();
                    acked = layout.len();
                    head_acked = true;
                    ctx.ev(71, disk.durable as u64, 0, || format!("sync: {} bytes durable, {} records", disk.bytes.len(), layout.len()));
                }
                _ => {
                    seq = seq.wrapping_mul(3).wrapping_add(1);
                    let v = record(seq, gen::value_fuel(ctx, &body, *ctx.pick(&[6i64, 20, 60])));
                    let bytes = model::encode(&rec, &v);
                    let at = disk.bytes.len();
                    let (fault, crash) = match ctx.draw(8) {
                        0 | 1 => (Some(draw_fault(ctx, &[FK::NoSpace, FK::Other, FK::WriteZero, FK::NoSpace], ctx.below(bytes.len()))), None),
                        2 => (None, Some(1 + ctx.draw(bytes.len() as u64 + 1))),
                        _ => (None, None),
                    };
                    match append(ctx, &mut disk, Some(enc_path(ctx)), &s, &v, pool.take(ctx), fault, crash, None) {
                        None => {
                            layout.push((v, bytes.len()));
                            crashed = true;
                        }
                        Some((r, a)) => {
                            pool.0.push(a);
                            match (&r, fault) {
                                (Ok(()), None) => {
                                    must!(disk.bytes[at..] == bytes[..], "bytes", "record {} on disk is not its encoding", layout.len());
                                    layout.push((v, bytes.len()));
                                    ctx.count(K::PFinished);
                                }
                                (Ok(()), Some(f)) => return bad("failure-hidden", format!("append returned Ok over {:?}", f)),
                                (Err(e), Some(f)) => {
                                    must!(e.kind() == ErrorKind::Io && f.carried_by(e), "failure-cause", "append over {:?}: {}", f, show(&r));
                                    // repair at once, or leave the torn record and die
                                    if ctx.chance(1, 2) {
                                        disk.bytes.truncate(at);
                                    } else {
                                        layout.push((v, bytes.len()));
                                        crashed = true;
                                    }
                                }
                                (Err(_), None) => return bad("encode-failed", format!("append: {}", show(&r))),
                            }
                        }
                    }
                }
            }
            if crashed {
                break;
            }
        }
        if crashed || ctx.chance(3, 4) {
            disk.crash(ctx);
        }
    }
    Ok(())
}

/// A path that yields the value.
fn dec_path_val(ctx: &Ctx) -> DecPath {
    *ctx.pick(&[DecPath::Value, DecPath::Ops, DecPath::Serde, DecPath::Any])
}

// ---- S12 ----

fn st(fs: Vec<(&str, Schema)>) -> Schema {
    Schema::Struct(fs.into_iter().map(|(n, s)| StructSchemaField { name: n.into(), inner: s }).collect())
}
fn en(vs: Vec<(&str, Schema)>) -> Schema {
    Schema::Enum(vs.into_iter().map(|(n, s)| EnumSchemaVariant { name: n.into(), inner: s }).collect())
}
fn seq(s: Schema) -> Schema {
    Schema::Seq(SeqSchema { len: None, inner: Box::new(s) })
}

const SCALAR_NAMES: [&str; 14] = ["U8", "U16", "U32", "U64", "U128", "I8", "I16", "I32", "I64", "I128", "F32", "F64", "Char", "Bool"];

/// The meta-schema, from the format document.
pub fn meta() -> Schema {
    let u64_ = || Schema::Scalar(ScalarType::U64);
    en(vec![
        ("Scalar", en(SCALAR_NAMES.iter().map(|n| (*n, Schema::Unit)).collect())),
        ("Str", Schema::Unit),
        ("Bytes", Schema::Unit),
        ("Unit", Schema::Unit),
        ("Option", Schema::Recurse(1)),
        ("Seq", st(vec![("len", Schema::Option(Box::new(u64_()))), ("inner", Schema::Recurse(2))])),
        ("Tuple", seq(Schema::Recurse(2))),
        ("Struct", seq(st(vec![("name", Schema::Str), ("inner", Schema::Recurse(3))]))),
        ("Enum", seq(st(vec![("name", Schema::Str), ("inner", Schema::Recurse(3))]))),
        ("Recurse", u64_()),
    ])
}

fn variant(ord: usize, name: &str, v: Value) -> Value {
    Value::Enum(EnumValue { variant_ord: ord, variant_name: name.into(), value: Box::new(v) })
}

/// A schema as a value of the meta-schema.
pub fn schema_value(s: &Schema) -> Value {
    let named = |n: &String, s: &Schema| Value::Struct(vec![StructValueField { name: "name".into(), value: Value::Str(n.clone()) }, StructValueField { name: "inner".into(), value: schema_value(s) }]);
    match s {
        Schema::Scalar(t) => {
            let i = gen::SCALARS.iter().position(|x| x == t).unwrap();
            variant(0, "Scalar", variant(i, SCALAR_NAMES[i], Value::Unit))
        }
        Schema::Str => variant(1, "Str", Value::Unit),
        Schema::Bytes => variant(2, "Bytes", Value::Unit),
        Schema::Unit => variant(3, "Unit", Value::Unit),
        Schema::Option(i) => variant(4, "Option", schema_value(i)),
        Schema::Seq(q) => variant(
            5,
            "Seq",
            Value::Struct(vec![
                StructValueField { name: "len".into(), value: Value::Option(q.len.map(|n| Box::new(Value::Scalar(ScalarValue::U64(n as u64))))) },
                StructValueField { name: "inner".into(), value: schema_value(&q.inner) },
            ]),
        ),
        Schema::Tuple(ss) => variant(6, "Tuple", Value::VarLenSeq(ss.iter().map(schema_value).collect())),
        Schema::Struct(fs) => variant(7, "Struct", Value::VarLenSeq(fs.iter().map(|f| named(&f.name, &f.inner)).collect())),
        Schema::Enum(fs) => variant(8, "Enum", Value::VarLenSeq(fs.iter().map(|f| named(&f.name, &f.inner)).collect())),
        Schema::Recurse(n) => variant(9, "Recurse", Value::Scalar(ScalarValue::U64(*n as u64))),
    }
}

pub fn value_schema(v: &Value) -> Option<Schema> {
    let e = match v {
        Value::Enum(e) => e,
        _ => return None,
    };
    let u = |v: &Value| match v {
        Value::Scalar(ScalarValue::U64(n)) => Some(*n as usize),
        _ => None,
    };
    let list = |v: &Value| -> Option<Vec<(String, Schema)>> {
        match v {
            Value::VarLenSeq(xs) => xs
                .iter()
                .map(|x| match x {
                    Value::Struct(fs) => match (&fs[0].value, value_schema(&fs[1].value)) {
                        (Value::Str(n), Some(s)) => Some((n.clone(), s)),
                        _ => None,
                    },
                    _ => None,
                })
                .collect(),
            _ => None,
        }
    };
    Some(match e.variant_ord {
        0 => match &*e.value {
            Value::Enum(x) => Schema::Scalar(*gen::SCALARS.get(x.variant_ord)?),
            _ => return None,
        },
        1 => Schema::Str,
        2 => Schema::Bytes,
        3 => Schema::Unit,
        4 => Schema::Option(Box::new(value_schema(&e.value)?)),
        5 => match &*e.value {
            Value::Struct(fs) => {
                let len = match &fs[0].value {
                    Value::Option(None) => None,
                    Value::Option(Some(n)) => Some(u(n)?),
                    _ => return None,
                };
                Schema::Seq(SeqSchema { len, inner: Box::new(value_schema(&fs[1].value)?) })
            }
            _ => return None,
        },
        6 => match &*e.value {
            Value::VarLenSeq(xs) => Schema::Tuple(xs.iter().map(value_schema).collect::<Option<_>>()?),
            _ => return None,
        },
        7 => Schema::Struct(list(&e.value)?.into_iter().map(|(name, inner)| StructSchemaField { name, inner }).collect()),
        8 => Schema::Enum(list(&e.value)?.into_iter().map(|(name, inner)| EnumSchemaVariant { name, inner }).collect()),
        9 => Schema::Recurse(u(&e.value)?),
        _ => return None,
    })
}

fn send_schema(ctx: &Ctx, lib_meta: &Schema, s: &Schema, w: &mut SimWriter, pool: &mut Pool) -> Run {
    let mut st = CoderState::new(lib_meta, pool.take(ctx), None);
    let typed = ctx.chance(1, 2);
    let r = if typed {
        ctx.call();
        s.serialize(&mut Encoder::new(&mut st, w))
    } else {
        enc_all(ctx, enc_path(ctx), lib_meta, &schema_value(s), &mut st, w)
    };
    must!(r.is_ok() && st.is_finished(), "encode-failed", "schema {} refused: {}", short(&format!("{:?}", s)), show(&r));
    pool.give(ctx, st);
    Ok(())
}

/// None: received through an interface that only skips.
fn recv_schema(ctx: &Ctx, lib_meta: &Schema, st: &mut CoderState, r: &mut SimReader) -> Result<Schema, Error> {
    let _ = lib_meta;
    if ctx.chance(2, 3) {
        ctx.call();
        let r = Schema::deserialize(&mut Decoder::new(st, r));
        ctx.ev(72, r.is_ok() as u64, 0, || format!("receive schema through serde -> {}", show(&r)));
        r
    } else {
        dec_all(ctx, dec_path_val(ctx), lib_meta, st, r).and_then(|v| value_schema(&v.unwrap()).ok_or_else(|| Error::other("sim: not a schema")))
    }
}

pub fn handshake(ctx: &Ctx) -> Run {
    let mut o = PLAIN;
    o.big_enums = ctx.chance(1, 10);
    let mode = ctx.draw(4);
    if mode >= 2 {
        o = SAFE;
        o.big_enums = false;
    }
    let mut s = gen::schema(ctx, o);
    if ctx.chance(1, 8) {
        // extremes that a schema may state
        let n = *ctx.pick(&[usize::MAX, 1usize << 63, (1 << 32) + 1, 1 << 53]);
        s = match ctx.draw(2) {
            0 => Schema::Tuple(vec![Schema::Option(Box::new(Schema::Seq(SeqSchema { len: Some(n), inner: Box::new(s) })))]),
            _ => Schema::Struct(vec![StructSchemaField { name: "far".into(), inner: Schema::Option(Box::new(Schema::Recurse(n))) }, StructSchemaField { name: String::new(), inner: s }]),
        };
    }
    let mut big = None;
    if ctx.chance(1, 2000) {
        // far wider, deeper or with longer names than usual
        let (mut t, mut v) = gen::extreme(ctx);
        for _ in 0..3 {
            if gen::count_nodes(&t) > 20 || t.pretty_fmt().len() > 200 {
                break;
            }
            (t, v) = gen::extreme(ctx);
        }
        s = t;
        big = Some(v);
    }
    let s = s;
    describe(ctx, &s, None);
    let m = meta();
    let lib_meta = Schema::schema(Default::default());
    must!(lib_meta == m, "meta-schema", "the schema of schemas is not the documented one: {}", short(&format!("{:?}", lib_meta)));
    let mut pool = Pool(vec![]);
    let mut w = SimWriter::new(ctx, 0, Manner::draw(ctx));
    send_schema(ctx, &lib_meta, &s, &mut w, &mut pool)?;
    let want = model::encode(&m, &schema_value(&s));
    must!(w.sink == want, "schema-bytes", "schema encoded as {:02x?}, documented {:02x?}", clip(&w.sink), clip(&want));
    let mut data = if ctx.chance(1, 4) { want.clone() } else { w.sink };
    match mode {
        0 | 1 => {
            // lossless; a message follows right behind
            let legal = !crate::worlds::gen_has_illegal(&s);
            let v = if big.is_some() {
                big
            } else if legal && !huge(&s) { Some(gen::value_fuel(ctx, &s, *ctx.pick(&[6i64, 30, 80]))) } else { None };
            let mut wm = SimWriter::new(ctx, 2, Manner::draw(ctx));
            if let Some(v) = &v {
                let mut st = CoderState::new(&s, pool.take(ctx), None);
                let r = enc_all(ctx, enc_path(ctx), &s, v, &mut st, &mut wm);
                must!(r.is_ok(), "encode-failed", "{}", show(&r));
                pool.give(ctx, st);
            }
            let at = data.len();
            data.extend_from_slice(&wm.sink);
            let mut r = SimReader::new(ctx, 1, data, Manner::draw(ctx));
            let mut st = CoderState::new(&lib_meta, pool.take(ctx), None);
            let got = recv_schema(ctx, &lib_meta, &mut st, &mut r);
            let copy = match got {
                Err(_) => return bad("decode-failed", format!("schema refused: {}", show(&got))),
                Ok(x) => x,
            };
            must!(copy == s, "schema", "received {} instead of {}", short(&format!("{:?}", copy)), short(&format!("{:?}", s)));
            must!(st.is_finished() && r.pos == at, "consumed", "schema decode consumed {} of {} bytes", r.pos, at);
            pool.give(ctx, st);
            if let Some(v) = &v {
                let mut st = CoderState::new(&copy, pool.take(ctx), None);
                let p = dec_path(ctx);
                let got = dec_all(ctx, p, &copy, &mut st, &mut r);
                match &got {
                    Err(_) => return bad("interop", format!("{:?} under the received schema: {}", p, show(&got))),
                    Ok(g) => equal(&format!("{:?} under the received schema", p), g, v)?,
                }
                must!(st.is_finished() && r.pos == r.data.len(), "interop", "{:?} under the received schema left {} bytes", p, r.data.len() - r.pos);
                // and the answer goes back
                let mut st = CoderState::new(&copy, CoderStateAlloc::new(), None);
                let mut wb = SimWriter::new(ctx, 3, Manner::draw(ctx));
                let rr = enc_all(ctx, enc_path(ctx), &copy, v, &mut st, &mut wb);
                must!(rr.is_ok() && wb.sink == wm.sink, "interop", "bytes under the received schema differ: {}", show(&rr));
                ctx.count(K::PFinished);
            }
        }
        2 => {
            // cut
            let at = if ctx.chance(1, 3) { data.len() - 1 - ctx.below(data.len().min(3)) } else { ctx.below(data.len()) };
            let mut r = SimReader::new(ctx, 1, data, Manner::draw(ctx));
            let f = draw_fault(ctx, READ_FKS, at);
            r.fault = Some(f);
            let mut st = CoderState::new(&lib_meta, pool.take(ctx), None);
            let got = recv_schema(ctx, &lib_meta, &mut st, &mut r);
            match &got {
                Ok(x) => return bad("cut-accepted", format!("schema cut at byte {} decoded to {:?}", at, x)),
                Err(e) => must!(e.kind() == ErrorKind::Io && f.carried_by(e), "failure-cause", "schema cut by {:?}: {}", f, show(&got)),
            }
            end_state(&st, false)?;
        }
        _ => {
            damage(ctx, &mut data);
            let want = model::decode(&m, &data);
            let mut r = SimReader::new(ctx, 1, data, Manner::draw(ctx));
            let mut st = CoderState::new(&lib_meta, pool.take(ctx), None);
            let got = recv_schema(ctx, &lib_meta, &mut st, &mut r);
            let other = match (&want.0, got) {
                (Err(b), Err(e)) => {
                    bad_kind("damaged schema", *b, &e, None, false)?;
                    ctx.count(if *b == Bad::Malformed { K::PMalformed } else { K::PTruncated });
                    return end_state(&st, false);
                }
                (Err(b), Ok(x)) => return bad("bad-accepted", format!("{:?} schema bytes decoded to {:?}", b, x)),
                (Ok(v), Err(e)) => return bad("decode-failed", format!("bytes are the schema {:?} but were refused: {:?}: {}", value_schema(v), e.kind(), e.inner())),
                (Ok(v), Ok(x)) => {
                    must!(value_schema(v).as_ref() == Some(&x), "schema", "bytes are the schema {:?} but decoded to {:?}", value_schema(v), x);
                    must!(r.pos == want.1, "consumed", "consumed {} of {}", r.pos, want.1);
                    x
                }
            };
            ctx.count(K::PAcceptedDamage);
            use_schema(ctx, &other, &s)?;
        }
    }
    Ok(())
}

fn huge(s: &Schema) -> bool {
    let mut h = false;
    gen::walk(s, 0, &mut |x, _| h |= matches!(x, Schema::Seq(SeqSchema { len: Some(n), .. }) if *n > 1 << 12));
    h
}

/// Use a schema that nobody vouches for.
fn use_schema(ctx: &Ctx, s: &Schema, orig: &Schema) -> Run {
    ctx.ev(73, 0, 0, || format!("using {}", short(&format!("{:?}", s))));
    // what a program shows its user
    if gen::count_nodes(s) < 3000 {
        let text = s.pretty_fmt();
        must!(text.lines().count() >= gen::count_nodes(s), "pretty", "{:?} is shown as {}", s, text);
    }
    let data: Vec<u8> = if ctx.chance(1, 2) && !crate::worlds::gen_has_illegal(orig) && !huge(orig) {
        model::encode(orig, &gen::value_fuel(ctx, orig, 12))
    } else {
        (0..ctx.below(120)).map(|_| if ctx.chance(1, 4) { ctx.draw(256) as u8 } else { ctx.draw(3) as u8 }).collect()
    };
    if gen::tame(s) && ctx.chance(2, 3) {
        let want = model::decode(s, &data);
        let mut st = CoderState::new(s, CoderStateAlloc::new(), None);
        let mut r = SimReader::new(ctx, 4, data, Manner::draw(ctx));
        let p = dec_path(ctx);
        let got = dec_all(ctx, p, s, &mut st, &mut r);
        if matches!(s, Schema::Recurse(_)) && got.is_err() {
            return Ok(());
        }
        return judge(ctx, &format!("{:?} under a damaged schema", p), &got, &mut st, &mut r, 0, &want);
    }
    if ctx.chance(1, 2) {
        let mut d = DecSess::new(s, CoderStateAlloc::new(), SimReader::new(ctx, 4, data, Manner::draw(ctx)));
        for _ in 0..60 {
            let wild = ctx.chance(1, 10);
            let op = d.next_op(ctx, wild);
            d.step(ctx, &op)?;
        }
    } else {
        let mut e = EncSess::new(s, CoderStateAlloc::new(), SimWriter::new(ctx, 5, Manner::draw(ctx)), 20);
        for _ in 0..60 {
            let wild = ctx.chance(1, 10);
            let op = e.next_op(ctx, wild);
            e.step(ctx, &op)?;
        }
    }
    Ok(())
}

// ---- S15 ----

struct Service<'s> {
    req: &'s Schema,
    resp: &'s Schema,
    /// what each client asks, in order
    asks: Vec<Vec<Value>>,
    /// durable memory of each client: answered so far
    answered: Mutex<Vec<usize>>,
    quiet: Mutex<Option<u64>>,
    cap: usize,
}

fn req_value(client: usize, id: usize, body: &Value) -> Value {
    Value::Struct(vec![
        StructValueField { name: "client".into(), value: Value::Scalar(ScalarValue::U8(client as u8)) },
        StructValueField { name: "id".into(), value: Value::Scalar(ScalarValue::U32(id as u32)) },
        StructValueField { name: "body".into(), value: body.clone() },
    ])
}

fn resp_value(client: usize, id: usize, body: &Value) -> Value {
    Value::Tuple(vec![
        variant(1, "Done", Value::Struct(vec![
            StructValueField { name: "body".into(), value: body.clone() },
            StructValueField { name: "id".into(), value: Value::Scalar(ScalarValue::U32(id as u32)) },
        ])),
        Value::Scalar(ScalarValue::U8(client as u8)),
    ])
}

/// Links die with their owner.
struct Owned<'k>(&'k Kernel, Vec<usize>, bool);
impl Drop for Owned<'_> {
    fn drop(&mut self) {
        for l in &self.1 {
            if self.2 {
                self.0.reset(*l);
            } else {
                self.0.close(*l);
            }
        }
    }
}

/// One process, whose sessions fail again and again: the next one is none the worse for it.
fn worn(ctx: &Ctx) -> Run {
    let mut o = PLAIN;
    o.big_enums = false;
    let s = gen::schema(ctx, o);
    let v = gen::value_fuel(ctx, &s, *ctx.pick(&[6i64, 20]));
    let b = model::encode(&s, &v);
    if b.is_empty() || b.len() > 600 {
        return Ok(());
    }
    describe(ctx, &s, Some(&v));
    let n = *ctx.pick(&[70usize, 20, 140, 300, 1100]);
    let only = ctx.draw(12);
    let at = ctx.below(b.len());
    let claims = Schema::Tuple(vec![s.clone(), Schema::Seq(SeqSchema { len: None, inner: Box::new(Schema::Scalar(ScalarType::U16)) }), Schema::Str, Schema::Bytes]);
    let outlaw = Schema::Tuple(vec![s.clone(), Schema::Recurse(2)]);
    let mut pool = Pool(vec![]);
    ctx.ev(83, n as u64, only, || format!("{} sessions which fail, of kind {}", n, only));
    for i in 0..n {
        let kind = if only < 9 { only } else { ctx.draw(9) };
        let at = if only < 9 && i % 8 != 7 { at } else { ctx.below(b.len()) };
        ctx.count(K::WornSession);
        match kind {
            0 | 1 => {
                // what was announced does not come
                let which = if kind == 0 { 1 + (i % 3) } else { 2 + ctx.below(2) };
                let mut d = b.clone();
                d.extend(std::iter::repeat(0).take(which - 1));
                d.extend(model::uint(1u128 << (20 + (i % 12) as u32 * 3)));
                let mut st = CoderState::new(&claims, pool.take(ctx), None);
                let mut r = SimReader::new(ctx, 1, d, Manner::draw(ctx));
                let got = dec_all(ctx, dec_path(ctx), &claims, &mut st, &mut r);
                must!(matches!(&got, Err(e) if e.kind() == ErrorKind::Io), "failure-kind", "a message that ends early: {}", show(&got));
                end_state(&st, false)?;
                pool.give(ctx, st);
            }
            2 => {
                let mut st = CoderState::new(&s, pool.take(ctx), None);
                let mut r = SimReader::new(ctx, 1, b.clone(), Manner::draw(ctx));
                r.fault = Some(draw_fault(ctx, READ_FKS, at));
                let got = dec_all(ctx, dec_path(ctx), &s, &mut st, &mut r);
                must!(matches!(&got, Err(e) if e.kind() == ErrorKind::Io), "failure-kind", "a stream that failed: {}", show(&got));
                end_state(&st, false)?;
                pool.give(ctx, st);
            }
            3 => {
                let mut st = CoderState::new(&s, pool.take(ctx), None);
                let mut w = SimWriter::new(ctx, 0, Manner::draw(ctx));
                w.fault = Some(draw_fault(ctx, WRITE_FKS, at));
                let got = enc_all(ctx, enc_path(ctx), &s, &v, &mut st, &mut w);
                must!(matches!(&got, Err(e) if e.kind() == ErrorKind::Io), "failure-kind", "a stream that failed: {}", show(&got));
                end_state(&st, false)?;
                pool.give(ctx, st);
            }
            4 => {
                let mut d = b.clone();
                damage(ctx, &mut d);
                let want = if gen::tame(&s) { model::decode(&s, &d) } else { continue };
                let mut st = CoderState::new(&s, pool.take(ctx), None);
                let mut r = SimReader::new(ctx, 1, d, Manner::draw(ctx));
                let p = dec_path(ctx);
                let got = dec_all(ctx, p, &s, &mut st, &mut r);
                judge(ctx, &format!("{:?}", p), &got, &mut st, &mut r, 0, &want)?;
                pool.give(ctx, st);
            }
            5 => {
                // given up, with calls that were refused
                let mut e = EncSess::new(&s, pool.take(ctx), SimWriter::new(ctx, 0, Manner::draw(ctx)), 6);
                for _ in 0..ctx.below(12) {
                    let wild = ctx.chance(1, 2);
                    let op = e.next_op(ctx, wild);
                    e.step(ctx, &op)?;
                }
                pool.give(ctx, e.st);
            }
            6 => {
                let mut d = DecSess::new(&s, pool.take(ctx), SimReader::new(ctx, 1, b.clone(), Manner::draw(ctx)));
                for _ in 0..ctx.below(12) {
                    let wild = ctx.chance(1, 2);
                    let op = d.next_op(ctx, wild);
                    d.step(ctx, &op)?;
                }
                pool.give(ctx, d.st);
            }
            7 => {
                // a schema which turns out to be illegal
                let mut e = EncSess::new(&outlaw, pool.take(ctx), SimWriter::new(ctx, 0, Manner::draw(ctx)), 0);
                for _ in 0..400 {
                    let op = e.next_op(ctx, false);
                    if e.step(ctx, &op)? == Did::Failed {
                        break;
                    }
                }
                pool.give(ctx, e.st);
            }
            _ => {
                // the stream takes the process down, and what is its own with it
                let mut r = SimReader::new(ctx, 1, b.clone(), Manner::draw(ctx));
                r.crash_at_call = Some(1 + ctx.draw(4));
                let a = pool.take(ctx);
                let out = crashable(|| {
                    let mut st = CoderState::new(&s, a, None);
                    let got = dec_all(ctx, dec_path(ctx), &s, &mut st, &mut r);
                    (got.is_ok(), st.is_finished())
                });
                must!(out.map_or(true, |(a, b)| a && b), "decode-failed", "a whole message was refused");
            }
        }
        pool.0.truncate(4);
    }
    // and now for good
    for turn in 0..2 {
        let mut st = CoderState::new(&s, if turn == 0 { pool.take(ctx) } else { CoderStateAlloc::new() }, None);
        let mut w = SimWriter::new(ctx, 0, Manner::draw(ctx));
        let p = enc_path(ctx);
        let got = enc_all(ctx, p, &s, &v, &mut st, &mut w);
        must!(got.is_ok() && w.sink == b, "no-progress", "{:?} after {} failed sessions: {}", p, n, show(&got));
        end_state(&st, true)?;
        pool.give(ctx, st);
        let mut st = CoderState::new(&s, if turn == 0 { pool.take(ctx) } else { CoderStateAlloc::new() }, None);
        let mut r = SimReader::new(ctx, 1, w.sink, Manner::draw(ctx));
        let p = dec_path(ctx);
        let got = dec_all(ctx, p, &s, &mut st, &mut r);
        match &got {
            Ok(g) => equal(&format!("{:?} after {} failed sessions", p, n), g, &v)?,
            Err(_) => return bad("no-progress", format!("{:?} after {} failed sessions: {}", p, n, show(&got))),
        }
        end_state(&st, true)?;
        pool.give(ctx, st);
        ctx.count(K::PFinished);
    }
    Ok(())
}

pub fn service(ctx: &Ctx) -> Run {
    if ctx.chance(1, 25) {
        return worn(ctx);
    }
    let mut o = PLAIN;
    o.big_enums = ctx.chance(1, 10);
    let body = gen::schema(ctx, o);
    let req = st(vec![("client", Schema::Scalar(ScalarType::U8)), ("id", Schema::Scalar(ScalarType::U32)), ("body", body.clone())]);
    let resp = Schema::Tuple(vec![
        en(vec![("Busy", Schema::Unit), ("Done", st(vec![("body", body.clone()), ("id", Schema::Scalar(ScalarType::U32))]))]),
        Schema::Scalar(ScalarType::U8),
    ]);
    let clients = 1 + ctx.below(3);
    let mut total = 0;
    let asks: Vec<Vec<Value>> = (0..clients)
        .map(|_| {
            (0..1 + ctx.below(3))
                .map(|_| {
                    let v = gen::value_fuel(ctx, &body, *ctx.pick(&[6i64, 20, 40]));
                    total += model::encode(&body, &v).len();
                    v
                })
                .collect()
        })
        .collect();
    if total > 3000 {
        return Ok(());
    }
    describe(ctx, &req, None);
    let asked: usize = asks.iter().map(|a| a.len()).sum();
    let sv = Service { req: &req, resp: &resp, asks, answered: Mutex::new(vec![0; clients]), quiet: Mutex::new(None), cap: caps(ctx).max(2) };
    let sv = &sv;
    let chaos = ctx.below(10);
    let mut tasks: Vec<(&'static str, Body)> = vec![];
    for c in 0..clients {
        tasks.push((["client 0", "client 1", "client 2"][c], Box::new(move |k: Kernel| client(&k, sv, c))));
    }
    tasks.push(("server", Box::new(move |k: Kernel| server(&k, sv, clients))));
    tasks.push(("chaos", Box::new(move |k: Kernel| {
        let ctx = k.sh.ctx.clone();
        for _ in 0..chaos {
            k.sleep(1 + ctx.draw(40_000));
            match ctx.draw(5) {
                4 => {
                    let n = k.links();
                    if n > 0 {
                        let l = n - 1 - ctx.below(n.min(4));
                        ctx.ev(82, l as u64, 0, || format!("SILENCE on link {}", l));
                        k.silence_after(l, 0);
                    }
                }
                0 | 1 => {
                    let n = k.links();
                    if n > 0 {
                        let l = n - 1 - ctx.below(n.min(4));
                        ctx.count(K::LinkReset);
                        ctx.ev(80, l as u64, 0, || format!("RESET of link {}", l));
                        k.reset(l);
                    }
                }
                2 => k.crash(ctx.below(clients)),
                _ => k.crash(clients),
            }
        }
        let now = k.now();
        *lock(&sv.quiet) = Some(now);
        ctx.ev(81, now, 0, || format!("[t={}us] faults stop", now));
        Ok(())
    })));
    kernel::run(ctx, 1, tasks)?;
    let done: usize = lock(&sv.answered).iter().sum();
    must!(done == asked, "unanswered", "{} of {} requests answered", done, asked);
    ctx.count(K::PFinished);
    Ok(())
}

fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    match m.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

/// A client process: crashes lose everything but the count of answered requests.
fn client(k: &Kernel, sv: &Service, me: usize) -> Run {
    let ctx = k.sh.ctx.clone();
    loop {
        match crashable(|| client_life(k, sv, me)) {
            Some(r) => return r,
            None => {
                ctx.count(K::Restart);
                // may be hit again while down
                while crashable(|| k.sleep(1 + ctx.draw(30_000))).is_none() {}
            }
        }
    }
}

fn client_life(k: &Kernel, sv: &Service, me: usize) -> Run {
    let ctx = k.sh.ctx.clone();
    let mut pool = Pool(vec![]);
    let mut tries = 0;
    loop {
        let id = lock(&sv.answered)[me];
        let body = match sv.asks[me].get(id) {
            Some(b) => b,
            None => return Ok(()),
        };
        tries += 1;
        must!(tries < 200, "no-progress", "client {} still retrying", me);
        let quiet = *lock(&sv.quiet);
        let calm = quiet.is_some();
        let man = if calm { LinkManner { stall: 0, max_latency: 100, ..manner(&ctx) } } else { manner(&ctx) };
        let (up, down) = (k.link(sv.cap), k.link(sv.cap));
        if !calm && ctx.chance(1, 4) {
            let l = if ctx.chance(1, 2) { up } else { down };
            k.reset_after(l, ctx.below(60));
        }
        if !calm && ctx.chance(1, 6) {
            // a partition nobody is told of
            k.silence_after(if ctx.chance(1, 2) { up } else { down }, ctx.below(60));
        }
        let timeout = if calm { None } else { Some(*ctx.pick(&[100_000u64, 20_000, 2_000])) };
        let session = {
            let _own = Owned(k, vec![up, down], ctx.chance(1, 2));
            k.connect(0, (up, down));
            let mut out = k.end(up, man, timeout);
            let mut inp = k.end(down, man, timeout);
            (|| -> Result<Result<(), Error>, Violation> {
                let v = req_value(me, id, body);
                let mut st = CoderState::new(sv.req, pool.take(&ctx), None);
                let r = enc_all(&ctx, enc_path(&ctx), sv.req, &v, &mut st, &mut out);
                let fin = st.is_finished();
                must!(fin == r.is_ok(), "completion", "encode {} but is_finished() = {}", show(&r), fin);
                pool.give(&ctx, st);
                if r.is_err() {
                    return Ok(r);
                }
                let mut st = CoderState::new(sv.resp, pool.take(&ctx), None);
                let p = dec_path_val(&ctx);
                let r = dec_all(&ctx, p, sv.resp, &mut st, &mut inp);
                let fin = st.is_finished();
                must!(fin == r.is_ok(), "completion", "decode {} but is_finished() = {}", show(&r), fin);
                pool.give(&ctx, st);
                match r {
                    Ok(g) => {
                        equal(&format!("response to client {} request {} through {:?}", me, id, p), &g, &resp_value(me, id, body))?;
                        Ok(Ok(()))
                    }
                    Err(e) => Ok(Err(e)),
                }
            })()?
        };
        match session {
            Ok(()) => {
                lock(&sv.answered)[me] += 1;
                if let Some(q) = *lock(&sv.quiet) {
                    // nothing fails any more: answers cannot be long in coming
                    let asked: u64 = sv.asks.iter().map(|a| a.len() as u64).sum();
                    // the server has to give up on every connection that went silent
                    let silent = ctx.core().counts[K::Silence as usize];
                    must!(k.now() <= q + 5_000_000 * (asked + 4) + 3_000_000 * silent, "slow", "request answered {}us after the last fault", k.now() - q);
                }
            }
            Err(e) => {
                must!(e.kind() == ErrorKind::Io, "failure-kind", "session failed with {:?}: {}", e.kind(), e.inner());
                must!(!calm, "no-progress", "a session begun after the last fault failed: {}", e.inner());
                ctx.count(K::PRetry);
                k.sleep(1 + ctx.draw(10_000));
            }
        }
    }
}

fn server(k: &Kernel, sv: &Service, clients: usize) -> Run {
    let ctx = k.sh.ctx.clone();
    loop {
        match crashable(|| server_life(k, sv, clients)) {
            Some(r) => return r,
            None => {
                ctx.count(K::Restart);
                while crashable(|| k.sleep(1 + ctx.draw(30_000))).is_none() {}
            }
        }
    }
}

fn server_life(k: &Kernel, sv: &Service, clients: usize) -> Run {
    let ctx = k.sh.ctx.clone();
    let mut pool = Pool(vec![]);
    let all: Vec<usize> = (0..clients).collect();
    loop {
        if k.all_done(&all) {
            return Ok(());
        }
        let (up, down) = match k.accept(0, 50_000) {
            Some(x) => x,
            None => continue,
        };
        // closed, not reset: what is under way to the client still arrives
        let _own = Owned(k, vec![up, down], false);
        let man = manner(&ctx);
        let man = if lock(&sv.quiet).is_some() { LinkManner { stall: 0, max_latency: 100, ..man } } else { man };
        let timeout = Some(1_000_000);
        let mut inp = k.end(up, man, timeout);
        let mut out = k.end(down, man, timeout);
        let mut st = CoderState::new(sv.req, pool.take(&ctx), None);
        let p = dec_path_val(&ctx);
        let r = dec_all(&ctx, p, sv.req, &mut st, &mut inp);
        must!(st.is_finished() == r.is_ok(), "completion", "decode {} but is_finished() = {}", show(&r), st.is_finished());
        pool.give(&ctx, st);
        let v = match &r {
            Ok(v) => v.clone().unwrap(),
            Err(e) => {
                must!(e.kind() == ErrorKind::Io, "failure-kind", "request failed with {:?}: {}", e.kind(), e.inner());
                continue;
            }
        };
        let (c, id) = match &v {
            Value::Struct(f) => match (&f[0].value, &f[1].value) {
                (Value::Scalar(ScalarValue::U8(c)), Value::Scalar(ScalarValue::U32(i))) => (*c as usize, *i as usize),
                _ => return bad("contents", format!("request decoded to {:?}", v)),
            },
            _ => return bad("contents", format!("request decoded to {:?}", v)),
        };
        let body = match sv.asks.get(c).and_then(|a| a.get(id)) {
            Some(b) => b,
            None => return bad("contents", format!("nobody sent request {} of client {}", id, c)),
        };
        equal(&format!("request {} of client {} through {:?}", id, c, p), &Some(v.clone()), &req_value(c, id, body))?;
        let mut st = CoderState::new(sv.resp, pool.take(&ctx), None);
        let r = enc_all(&ctx, enc_path(&ctx), sv.resp, &resp_value(c, id, body), &mut st, &mut out);
        must!(st.is_finished() == r.is_ok(), "completion", "encode {} but is_finished() = {}", show(&r), st.is_finished());
        pool.give(&ctx, st);
        if let Err(e) = &r {
            must!(e.kind() == ErrorKind::Io, "failure-kind", "response failed with {:?}: {}", e.kind(), e.inner());
        }
    }
}
