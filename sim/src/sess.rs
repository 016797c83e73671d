//! Call-by-call sessions against the model machine.

use crate::ctx::{Ctx, Run, Violation, K};
use crate::gen;
use crate::model::{Bad, DOp, Machine, Op, Res, St, Verdict};
use crate::must;
use crate::paths::{apply_op, dec_call, enc_call, is_rejection, show, Bufs};
use crate::stream::{is_eof_error, SimReader, SimWriter};
use binschema::error::{Error, ErrorKind};
use binschema::{CoderState, CoderStateAlloc, Decoder, Encoder, Schema, SeqSchema};

// ---- choosing calls ----

/// A call that conforms, given where the machine is.
pub fn valid_op(ctx: &Ctx, m: &Machine, fuel: &mut i64) -> Op {
    *fuel -= 1;
    let top = match m.stack.last() {
        Some(t) => t,
        None => return Op::Unit,
    };
    match (&top.st, top.schema) {
        (St::Need, Schema::Scalar(t)) => Op::Scalar(gen::scalar(ctx, *t)),
        (St::Need, Schema::Str) => Op::Str(gen::string(ctx, fuel)),
        (St::Need, Schema::Bytes) => Op::Bytes(gen::bytes(ctx, fuel)),
        (St::Need, Schema::Unit) => Op::Unit,
        (St::Need, Schema::Option(i)) => {
            if *fuel > 0 && !matches!(&**i, Schema::Enum(v) if v.is_empty()) && ctx.chance(3, 4) {
                Op::Some_
            } else {
                Op::None_
            }
        }
        (St::Need, Schema::Seq(SeqSchema { len: Some(n), .. })) => Op::FixedSeq(*n),
        (St::Need, Schema::Seq(SeqSchema { len: None, .. })) => Op::VarSeq(if *fuel > 0 { ctx.below(4) } else { 0 }),
        (St::Need, Schema::Tuple(_)) => Op::Tuple,
        (St::Need, Schema::Struct(_)) => Op::Struct,
        (St::Need, Schema::Enum(vs)) if !vs.is_empty() => {
            let o = gen::ordinal(ctx, vs.len(), *fuel);
            Op::Enum(o, vs[o].name.clone())
        }
        (St::Seq { len, next }, _) => {
            if next < len {
                Op::SeqElem
            } else {
                Op::FinishSeq
            }
        }
        (St::Tuple { next }, Schema::Tuple(ss)) => {
            if *next < ss.len() {
                Op::TupleElem
            } else {
                Op::FinishTuple
            }
        }
        (St::Struct { next }, Schema::Struct(fs)) => {
            if *next < fs.len() {
                Op::Field(fs[*next].name.clone())
            } else {
                Op::FinishStruct
            }
        }
        _ => Op::Unit,
    }
}

pub fn valid_dop(ctx: &Ctx, m: &Machine) -> DOp {
    let top = match m.stack.last() {
        Some(t) => t,
        None => return DOp::Unit,
    };
    match (&top.st, top.schema) {
        (St::Need, Schema::Scalar(t)) => DOp::Scalar(*t),
        (St::Need, Schema::Str) => {
            if ctx.chance(1, 2) {
                DOp::StrInto
            } else {
                DOp::Str
            }
        }
        (St::Need, Schema::Bytes) => {
            if ctx.chance(1, 2) {
                DOp::BytesInto
            } else {
                DOp::Bytes
            }
        }
        (St::Need, Schema::Unit) => DOp::Unit,
        (St::Need, Schema::Option(_)) => DOp::Option,
        (St::Need, Schema::Seq(SeqSchema { len: Some(n), .. })) => DOp::FixedSeq(*n),
        (St::Need, Schema::Seq(SeqSchema { len: None, .. })) => DOp::VarSeq,
        (St::Need, Schema::Tuple(_)) => DOp::Tuple,
        (St::Need, Schema::Struct(_)) => DOp::Struct,
        (St::Need, Schema::Enum(_)) => DOp::Enum,
        (St::EnumOrd { ord }, Schema::Enum(vs)) => DOp::Variant(vs[*ord].name.clone()),
        (St::Seq { len, next }, _) => {
            if next < len {
                DOp::SeqElem
            } else {
                DOp::FinishSeq
            }
        }
        (St::Tuple { next }, Schema::Tuple(ss)) => {
            if *next < ss.len() {
                DOp::TupleElem
            } else {
                DOp::FinishTuple
            }
        }
        (St::Struct { next }, Schema::Struct(fs)) => {
            if *next < fs.len() {
                DOp::Field(fs[*next].name.clone())
            } else {
                DOp::FinishStruct
            }
        }
        _ => DOp::Unit,
    }
}

fn wild_name(ctx: &Ctx, m: &Machine) -> String {
    if let Some(t) = m.stack.last() {
        let names: Vec<&String> = match t.schema {
            Schema::Struct(fs) => fs.iter().map(|f| &f.name).collect(),
            Schema::Enum(vs) => vs.iter().take(12).map(|f| &f.name).collect(),
            _ => vec![],
        };
        if !names.is_empty() && ctx.chance(3, 4) {
            let mut name = (*ctx.pick(&names)).clone();
            if ctx.chance(1, 4) {
                gen::rename(ctx, &mut name);
            }
            return name;
        }
    }
    (*ctx.pick(gen::NAMES)).to_string()
}

fn wild_len(ctx: &Ctx, m: &Machine) -> usize {
    if let Some(Schema::Seq(SeqSchema { len: Some(n), .. })) = m.stack.last().map(|t| t.schema) {
        if ctx.chance(1, 2) {
            return match ctx.draw(3) {
                0 => *n,
                1 => n.wrapping_add(1),
                _ => n.saturating_sub(1),
            };
        }
    }
    ctx.below(4)
}

/// Any call at all.
pub fn wild_op(ctx: &Ctx, m: &Machine) -> Op {
    if ctx.chance(1, 5) {
        // all but the right one
        match valid_op(ctx, m, &mut 0) {
            Op::Field(mut n) => {
                gen::rename(ctx, &mut n);
                return Op::Field(n);
            }
            Op::Enum(o, mut n) => {
                let o = match ctx.draw(3) {
                    0 => o + 1,
                    _ => {
                        gen::rename(ctx, &mut n);
                        o
                    }
                };
                return Op::Enum(o, n);
            }
            Op::FixedSeq(n) => return Op::FixedSeq(if ctx.chance(1, 2) { n.wrapping_add(1) } else { n.wrapping_sub(1) }),
            Op::SeqElem => return Op::FinishSeq,
            Op::TupleElem => return Op::FinishTuple,
            Op::FinishSeq => return Op::SeqElem,
            Op::FinishTuple => return Op::TupleElem,
            _ => {}
        }
    }
    match ctx.draw(17) {
        0 => Op::SeqElem,
        1 => Op::FinishSeq,
        2 => Op::TupleElem,
        3 => Op::FinishTuple,
        4 => Op::Field(wild_name(ctx, m)),
        5 => Op::FinishStruct,
        6 => Op::Unit,
        7 => Op::None_,
        // not into an item that has no value: the session could never end
        8 => match m.stack.last() {
            Some(t) if matches!((&t.st, t.schema), (St::Need, Schema::Option(i)) if matches!(&**i, Schema::Enum(v) if v.is_empty())) => Op::Unit,
            _ => Op::Some_,
        },
        9 => Op::FixedSeq(wild_len(ctx, m)),
        10 => Op::VarSeq(ctx.below(4)),
        11 => Op::Tuple,
        12 => Op::Struct,
        13 => Op::Str(if ctx.chance(1, 2) { String::new() } else { "wild".into() }),
        14 => Op::Bytes(if ctx.chance(1, 2) { vec![] } else { vec![1, 2, 3] }),
        15 => {
            let n = match m.stack.last().map(|t| t.schema) {
                Some(Schema::Enum(v)) => v.len(),
                _ => 2,
            };
            let o = match ctx.draw(4) {
                0 => n,
                1 => *ctx.pick(&[usize::MAX, 256, 255, 65536]),
                _ => ctx.below(n.max(1)),
            };
            Op::Enum(o, wild_name(ctx, m))
        }
        _ => {
            let t = match m.stack.last().map(|t| t.schema) {
                Some(Schema::Scalar(t)) if ctx.chance(1, 4) => *t,
                _ => *ctx.pick(gen::SCALARS),
            };
            Op::Scalar(gen::scalar(ctx, t))
        }
    }
}

pub fn wild_dop(ctx: &Ctx, m: &Machine) -> DOp {
    if ctx.chance(1, 5) {
        match valid_dop(ctx, m) {
            DOp::Field(mut n) => {
                gen::rename(ctx, &mut n);
                return DOp::Field(n);
            }
            DOp::Variant(mut n) => {
                gen::rename(ctx, &mut n);
                return DOp::Variant(n);
            }
            DOp::FixedSeq(n) => return DOp::FixedSeq(if ctx.chance(1, 2) { n.wrapping_add(1) } else { n.wrapping_sub(1) }),
            DOp::SeqElem => return DOp::FinishSeq,
            DOp::TupleElem => return DOp::FinishTuple,
            DOp::FinishSeq => return DOp::SeqElem,
            DOp::FinishTuple => return DOp::TupleElem,
            _ => {}
        }
    }
    match ctx.draw(18) {
        0 => DOp::SeqElem,
        1 => DOp::FinishSeq,
        2 => DOp::TupleElem,
        3 => DOp::FinishTuple,
        4 => DOp::Field(wild_name(ctx, m)),
        5 => DOp::FinishStruct,
        6 => DOp::Unit,
        7 => DOp::Option,
        8 => DOp::FixedSeq(wild_len(ctx, m)),
        9 => DOp::VarSeq,
        10 => DOp::Tuple,
        11 => DOp::Struct,
        12 => DOp::Str,
        13 => DOp::StrInto,
        14 => DOp::Bytes,
        15 => DOp::Enum,
        16 => DOp::Variant(wild_name(ctx, m)),
        _ => DOp::Scalar(*ctx.pick(gen::SCALARS)),
    }
}

/// What a step did, for callers that count.
#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Did {
    Accepted,
    Rejected,
    Dead,
    Failed,
}

pub struct EncSess<'s> {
    pub m: Machine<'s>,
    pub st: CoderState<'s>,
    pub w: SimWriter,
    pub fuel: i64,
    asked: usize,
}

pub struct DecSess<'s> {
    pub m: Machine<'s>,
    pub st: CoderState<'s>,
    pub r: SimReader,
    pub bufs: Bufs,
    asked: usize,
}

/// Whether to ask what the library answers with an error, whose text quotes every level.
fn affordable(asked: &mut usize, m: &Machine) -> bool {
    *asked += 1;
    m.depth() <= 500 || *asked % (4 * m.depth()) == 0
}

fn completion(what: &str, st: &CoderState, m: &Machine, ask: bool) -> Run {
    must!(st.is_finished() == m.finished(), "completion", "after {}: is_finished() = {} but the message is {}", what, st.is_finished(), if m.finished() { "complete" } else if m.broken { "failed" } else { "incomplete" });
    if !ask {
        return Ok(());
    }
    match st.is_finished_or_err() {
        Ok(()) => must!(m.finished(), "completion", "after {}: is_finished_or_err() succeeded on an unfinished message", what),
        Err(e) => {
            must!(!m.finished(), "completion", "after {}: is_finished_or_err() failed on a finished message", what);
            must!(e.kind() == ErrorKind::ApiUsage, "completion-kind", "after {}: is_finished_or_err() reported {:?}", what, e.kind());
        }
    }
    Ok(())
}

fn need_agrees(what: &str, need: Result<&Schema, Error>, m: &Machine) -> Run {
    if m.broken {
        return Ok(());
    }
    match (need, m.need()) {
        (Ok(a), Some(b)) => must!(std::ptr::eq(a, b), "need", "after {}: need() is {:?}, expected {:?}", what, a, b),
        (Err(e), None) => must!(
            e.kind() == ErrorKind::ApiUsage || (m.root_illegal && e.kind() == ErrorKind::IllegalSchema),
            "need-kind", "after {}: need() was asked out of place and reported {:?}", what, e.kind()
        ),
        (Ok(a), None) => must!(false, "need", "after {}: need() is {:?} while no value is needed", what, a),
        (Err(e), Some(b)) => must!(false, "need", "after {}: need() failed with {:?} while {:?} is needed", what, e.kind(), b),
    }
    Ok(())
}

impl<'s> EncSess<'s> {
    pub fn new(schema: &'s Schema, alloc: CoderStateAlloc, w: SimWriter, fuel: i64) -> Self {
        EncSess { m: Machine::new(schema), st: CoderState::new(schema, alloc, None), w, fuel, asked: 0 }
    }
    pub fn next_op(&mut self, ctx: &Ctx, wild: bool) -> Op {
        if wild {
            wild_op(ctx, &self.m)
        } else {
            valid_op(ctx, &self.m, &mut self.fuel)
        }
    }
    /// Make a call and compare everything about it with the model.
    pub fn step(&mut self, ctx: &Ctx, op: &Op) -> Result<Did, Violation> {
        let calls = self.w.calls;
        let at = self.w.sink.len();
        let room = self.w.room();
        let fault = self.w.fault.filter(|_| !self.w.failed);
        let verdict = self.m.enc(op);
        let r = enc_call(ctx, &mut self.st, &mut self.w, op);
        self.settle(op, verdict, r, calls, at, room, fault)
    }
    /// Several calls through one encoder front.
    pub fn steps(&mut self, ctx: &Ctx, ops: usize, wild: (u64, u64)) -> Run {
        for _ in 0..ops {
            let w = ctx.chance(wild.0, wild.1);
            let op = self.next_op(ctx, w);
            let calls = self.w.calls;
            let at = self.w.sink.len();
            let room = self.w.room();
            let fault = self.w.fault.filter(|_| !self.w.failed);
            let verdict = self.m.enc(&op);
            ctx.call();
            let r = apply_op(&mut Encoder::new(&mut self.st, &mut self.w), &op);
            self.settle(&op, verdict, r, calls, at, room, fault)?;
        }
        Ok(())
    }
    fn settle(&mut self, op: &Op, verdict: Verdict<Vec<u8>>, r: Result<(), Error>, calls: u64, at: usize, room: usize, fault: Option<crate::stream::Fault>) -> Result<Did, Violation> {
        let what = || format!("encoder.{}", crate::paths::short(&format!("{:?}", op)));
        let did = match verdict {
            Verdict::Accept(b) => {
                if b.len() > room {
                    self.m.broken = true;
                    let e = match &r {
                        Err(e) => e,
                        Ok(()) => return bad("failure-hidden", format!("{} succeeded though the stream failed under it", what())),
                    };
                    must!(e.kind() == ErrorKind::Io, "failure-kind", "{}: stream failed with {:?}, reported as {}", what(), fault, show(&r));
                    must!(fault.map_or(false, |f| f.carried_by(e)), "failure-cause", "{}: stream failed with {:?}, reported as {}", what(), fault, show(&r));
                    must!(self.w.sink[at..] == b[..room], "bytes", "{}: wrote {:02x?}, expected {:02x?} before the failure", what(), &self.w.sink[at..], &b[..room]);
                    Did::Failed
                } else {
                    must!(r.is_ok(), "refused", "{} conforms but was refused: {}", what(), show(&r));
                    must!(self.w.sink[at..] == b[..], "bytes", "{}: wrote {:02x?}, expected {:02x?}", what(), clip(&self.w.sink[at..]), clip(&b));
                    Did::Accepted
                }
            }
            Verdict::Reject => {
                match &r {
                    Ok(()) => return bad("accepted", format!("{} is out of place but was accepted", what())),
                    Err(e) => blame(&what(), e, self.m.blame(op.part()))?,
                }
                must!(self.w.calls == calls && self.w.sink.len() == at, "rejected-call-touched-stream", "{}: rejected but called the stream", what());
                Did::Rejected
            }
            Verdict::Dead => {
                match &r {
                    Ok(()) => return bad("accepted-after-end", format!("{} accepted by a {} coder", what(), if self.m.broken { "broken" } else { "finished" })),
                    Err(e) => must!(e.kind() == ErrorKind::ApiUsage, "end-kind", "{} on a broken or finished coder reported {}", what(), show(&r)),
                }
                must!(self.w.calls == calls && self.w.sink.len() == at, "end-touched-stream", "{}: coder at its end but called the stream", what());
                Did::Dead
            }
            Verdict::Illegal(_) => {
                match &r {
                    Ok(()) => return bad("illegal-accepted", format!("{} reached an illegal reference but was accepted", what())),
                    Err(e) => must!(e.kind() == ErrorKind::IllegalSchema, "illegal-kind", "{} reached an illegal reference, reported {}", what(), show(&r)),
                }
                must!(self.w.sink.len() == at, "illegal-wrote", "{}: refused but wrote {:02x?}", what(), &self.w.sink[at..]);
                Did::Failed
            }
            Verdict::Bad(..) => unreachable!(),
        };
        let ask = affordable(&mut self.asked, &self.m);
        completion(&what(), &self.st, &self.m, ask)?;
        if ask || self.m.need().is_some() {
            need_agrees(&what(), Encoder::new(&mut self.st, &mut self.w).need(), &self.m)?;
        }
        Ok(did)
    }
    /// Drive to completion with conforming calls. False: the value asked for is too large, given up.
    pub fn finish(&mut self, ctx: &Ctx) -> Result<bool, Violation> {
        let mut n = 0;
        self.fuel = self.fuel.min(4);
        while !self.m.finished() && !self.m.broken {
            let op = self.next_op(ctx, false);
            self.step(ctx, &op)?;
            n += 1;
            if n > 4_000 {
                ctx.count(K::Abandon);
                return Ok(false);
            }
        }
        Ok(true)
    }
}

pub fn bad<T>(class: &str, msg: String) -> Result<T, Violation> {
    crate::ctx::viol(class, msg)
}

pub fn clip(b: &[u8]) -> &[u8] {
    &b[..b.len().min(40)]
}

impl<'s> DecSess<'s> {
    pub fn new(schema: &'s Schema, alloc: CoderStateAlloc, r: SimReader) -> Self {
        DecSess { m: Machine::new(schema), st: CoderState::new(schema, alloc, None), r, bufs: Bufs::dirty(), asked: 0 }
    }
    pub fn next_op(&mut self, ctx: &Ctx, wild: bool) -> DOp {
        if wild {
            wild_dop(ctx, &self.m)
        } else {
            valid_dop(ctx, &self.m)
        }
    }
    pub fn step(&mut self, ctx: &Ctx, op: &DOp) -> Result<Did, Violation> {
        let calls = self.r.calls;
        let at = self.r.pos;
        let fault = self.r.fault.filter(|_| !self.r.failed);
        let verdict = self.m.dec(op, self.r.available());
        let r = dec_call(ctx, &mut self.st, &mut self.r, op, &mut self.bufs);
        let what = || format!("decoder.{}", crate::paths::short(&format!("{:?}", op)));
        let did = match verdict {
            Verdict::Accept((res, n)) => {
                match &r {
                    Err(_) => return bad("refused", format!("{} should return {:?} but was refused: {}", what(), res, show(&r))),
                    Ok(got) => must!(got.same(&res), "result", "{} returned {}, expected {}", what(), show(&r), crate::paths::short(&format!("{:?}", res))),
                }
                must!(self.r.pos == at + n, "bytes", "{}: read {} bytes, the item has {}", what(), self.r.pos - at, n);
                Did::Accepted
            }
            Verdict::Reject => {
                match &r {
                    Ok(_) => return bad("accepted", format!("{} is out of place but was accepted", what())),
                    Err(e) => blame(&what(), e, self.m.blame(op.part()))?,
                }
                must!(self.r.calls == calls, "rejected-call-touched-stream", "{}: rejected but called the stream", what());
                Did::Rejected
            }
            Verdict::Dead => {
                match &r {
                    Ok(_) => return bad("accepted-after-end", format!("{} accepted by a {} coder", what(), if self.m.broken { "broken" } else { "finished" })),
                    Err(e) => must!(e.kind() == ErrorKind::ApiUsage, "end-kind", "{} on a broken or finished coder reported {}", what(), show(&r)),
                }
                must!(self.r.calls == calls, "end-touched-stream", "{}: coder at its end but called the stream", what());
                Did::Dead
            }
            Verdict::Illegal(n) => {
                match &r {
                    Ok(_) => return bad("illegal-accepted", format!("{} reached an illegal reference but was accepted", what())),
                    Err(e) => must!(e.kind() == ErrorKind::IllegalSchema, "illegal-kind", "{} reached an illegal reference, reported {}", what(), show(&r)),
                }
                must!(self.r.pos <= at + n, "illegal-read", "{}: refused but read into the refused item", what());
                Did::Failed
            }
            Verdict::Bad(b, _) => {
                let e = match &r {
                    Ok(_) => return bad("bad-accepted", format!("{} on {:?} data returned {}", what(), b, show(&r))),
                    Err(e) => e,
                };
                bad_kind(&what(), b, e, fault, self.r.failed)?;
                match b {
                    Bad::Malformed | Bad::Limits => ctx.count(K::PMalformed),
                    _ => ctx.count(K::PTruncated),
                }
                Did::Failed
            }
        };
        let ask = affordable(&mut self.asked, &self.m);
        completion(&what(), &self.st, &self.m, ask)?;
        if ask || self.m.need().is_some() {
            need_agrees(&what(), Decoder::new(&mut self.st, &mut self.r).need(), &self.m)?;
        }
        Ok(did)
    }
}

fn blame(what: &str, e: &Error, want: Option<ErrorKind>) -> Run {
    must!(is_rejection(e) && want.map_or(true, |w| w == e.kind()), "rejection-kind", "{}: rejected as {:?}: {}, expected {}", what, e.kind(), e.inner(), want.map_or("a rejection".to_string(), |w| format!("{:?}", w)));
    Ok(())
}

/// The kind of error bad data must be reported with.
pub fn bad_kind(what: &str, b: Bad, e: &Error, fault: Option<crate::stream::Fault>, failed: bool) -> Run {
    match b {
        Bad::Malformed | Bad::Limits => must!(matches!(e.kind(), ErrorKind::MalformedData | ErrorKind::PlatformLimits), "malformed-kind", "{}: data is {:?}, reported as {:?}: {}", what, b, e.kind(), e.inner()),
        Bad::Truncated | Bad::Huge => {
            if b == Bad::Huge && e.kind() == ErrorKind::PlatformLimits {
                return Ok(());
            }
            match fault.filter(|_| failed) {
                Some(f) => {
                    must!(e.kind() == ErrorKind::Io, "failure-kind", "{}: stream failed with {:?}, reported as {:?}: {}", what, f, e.kind(), e.inner());
                    must!(f.carried_by(e), "failure-cause", "{}: stream failed with {:?}, reported as {:?}: {}", what, f, e.kind(), e.inner());
                }
                None => must!(is_eof_error(e), "truncated-kind", "{}: data ends early, reported as {:?}: {}", what, e.kind(), e.inner()),
            }
        }
        Bad::Illegal => must!(e.kind() == ErrorKind::IllegalSchema, "illegal-kind", "{}: illegal reference, reported as {:?}: {}", what, e.kind(), e.inner()),
    }
    Ok(())
}

/// A Res that is not needed elsewhere.
#[allow(dead_code)]
pub type _Res = Res;
