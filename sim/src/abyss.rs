//! Inputs that take a resource the format lets a few bytes claim: call stack by nesting, time and memory by
//! elements of no width. What is known to fail is listed in known_findings.txt; each of these runs in a process of
//! its own, as its failure ends the process.

use crate::ctx::{Ctx, Run, K};
use crate::stream::{Manner, SimReader};
use crate::{alloc, must, World};
use binschema::{CoderState, CoderStateAlloc, Decoder, KnownSchema, Schema, SeqSchema};
use serde::{Deserialize, Serialize};

/// By the name `<property>/<what>`.
pub const ABYSS: &[World] = &[
    World { id: "S05/deep-value", name: "abyss", run: deep_value, quick: 1, thorough: 1 },
    World { id: "S05/deep-typed", name: "abyss", run: deep_typed, quick: 1, thorough: 1 },
    World { id: "S05/unit-skip", name: "abyss", run: unit_skip, quick: 1, thorough: 1 },
    World { id: "S07/unit-claim", name: "abyss", run: unit_claim, quick: 1, thorough: 1 },
    World { id: "S12/deep-schema", name: "abyss", run: deep_schema, quick: 1, thorough: 1 },
];

/// On a thread as large as a program's main thread is by default.
fn on_main_stack(f: impl FnOnce() -> Run + Send) -> Run {
    std::thread::scope(|s| match std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, f).expect("thread").join() {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    })
}

/// Read bytes which are a prefix of a message, or a whole one: anything but a crash will do, though a prefix is no
/// message.
fn feed<T>(ctx: &Ctx, s: &Schema, b: Vec<u8>, whole: bool, read: impl Fn(&mut Decoder<'_, '_, SimReader>) -> binschema::error::Result<T> + Sync) -> Run {
    let m = Manner { frag: *ctx.pick(&[0u8, 3]), ..Manner::CALM };
    on_main_stack(|| {
        let mut r = SimReader::new(ctx, 1, b, m);
        let mut st = CoderState::new(s, CoderStateAlloc::new(), None);
        let got = read(&mut Decoder::new(&mut st, &mut r)).map(std::mem::forget);
        must!(whole || got.is_err(), "accepted", "a cut message was decoded");
        must!(got.is_err() || st.is_finished(), "unfinished", "a decoded message is not complete");
        Ok(())
    })
}

fn nest(ctx: &Ctx, level: &[u8], end: &[u8]) -> (Vec<u8>, bool) {
    ctx.count(K::HostileLen);
    let n = *ctx.pick(&[1_000_000usize, 2_000_000, 4_000_000]);
    let mut b = level.repeat(n);
    let whole = ctx.chance(1, 2);
    if whole {
        b.extend(end);
    }
    (b, whole)
}

fn deep_value(ctx: &Ctx) -> Run {
    let s = Schema::Option(Box::new(Schema::Recurse(1)));
    let (b, whole) = nest(ctx, &[1], &[0]);
    feed(ctx, &s, b, whole, |d| binschema::value::Value::decode_from(d))
}

#[derive(Serialize, Deserialize, KnownSchema)]
struct Chain {
    id: u8,
    next: Option<Box<Chain>>,
}

fn deep_typed(ctx: &Ctx) -> Run {
    let s = Chain::schema(Default::default());
    let (b, whole) = nest(ctx, &[7, 1], &[7, 0]);
    feed(ctx, &s, b, whole, |d| Chain::deserialize(d))
}

fn deep_schema(ctx: &Ctx) -> Run {
    let s = Schema::schema(Default::default());
    // option of option of ... unit
    let (b, whole) = nest(ctx, &[4], &[3]);
    feed(ctx, &s, b, whole, |d| Schema::deserialize(d))
}

fn units(ctx: &Ctx) -> (Schema, Vec<u8>) {
    ctx.count(K::HostileLen);
    let s = Schema::Seq(SeqSchema { len: None, inner: Box::new(Schema::Unit) });
    (s, crate::model::uint(*ctx.pick(&[u64::MAX as u128, 1 << 60, 1 << 50])))
}

fn unit_skip(ctx: &Ctx) -> Run {
    let (s, b) = units(ctx);
    feed(ctx, &s, b, true, |d| serde::de::IgnoredAny::deserialize(d))
}

fn unit_claim(ctx: &Ctx) -> Run {
    let (s, b) = units(ctx);
    feed(ctx, &s, b, true, |d| {
        alloc::set_cap(64 << 20);
        let r = binschema::value::Value::decode_from(d);
        alloc::set_cap(1 << 30);
        r
    })
}
