//! The choice source, event log and counters of one simulated run.
//!
//! Every decision of a run is a `draw` from here. In random mode it comes from a PRNG seeded by one
//! integer; in replay mode from a recorded list. 0 is always the simplest choice (no fault).

use crate::alloc::Unmetered;
use std::sync::{Arc, Mutex, MutexGuard};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut x = seed;
        for v in &mut s {
            x = mix(x);
            *v = x;
        }
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

macro_rules! kinds {
    ($($k:ident $n:literal,)*) => {
        /// Faults, scheduling events and probes, counted when they actually happen.
        #[derive(Copy, Clone, Debug, PartialEq, Eq)]
        #[repr(usize)]
        #[allow(dead_code)]
        pub enum K { $($k,)* Count }
        pub const KIND_NAMES: &[&str] = &[$($n,)*];
    };
}

kinds! {
    ShortRead "fault.short_read",
    ShortWrite "fault.short_write",
    EintrRead "fault.eintr_read",
    EintrWrite "fault.eintr_write",
    EarlyEof "fault.early_eof",
    HardReset "fault.stream_reset",
    HardTimeout "fault.stream_timeout",
    HardWouldBlock "fault.stream_would_block",
    HardBrokenPipe "fault.broken_pipe",
    HardInvalidData "fault.stream_invalid_data_error",
    HardOther "fault.stream_other_error",
    HardEofError "fault.stream_unexpected_eof_error",
    NoSpace "fault.disk_full",
    WriteZero "fault.write_zero",
    Flip "fault.bit_flip",
    SetByte "fault.byte_set",
    DropBytes "fault.bytes_dropped",
    DupBytes "fault.bytes_duplicated",
    SwapBytes "fault.segments_reordered",
    InsertBytes "fault.bytes_inserted",
    CutBytes "fault.cut",
    HostileLen "fault.hostile_varint",
    RandomBytes "fault.all_random",
    Misuse "fault.api_misuse",
    WornSession "fault.failed_session_before_service",
    Abandon "fault.session_abandoned",
    CrashInCall "fault.crash_inside_call",
    Recreate "sched.coder_front_recreated",
    Switch "sched.session_switch",
    Recycle "sched.alloc_recycled",
    CloneAlloc "sched.alloc_cloned",
    DropAlloc "sched.alloc_dropped",
    LogErr "fault.log_error",
    LogShort "fault.log_short",
    LogEintr "fault.log_eintr",
    LogZero "fault.log_write_zero",
    DiskCrash "fault.disk_crash",
    TornTail "fault.torn_tail",
    LostTail "fault.lost_tail",
    Restart "fault.restart",
    Latency "fault.link_latency",
    Stall "fault.link_stall",
    LinkReset "fault.link_reset",
    Silence "fault.link_goes_silent",
    LinkTimeout "fault.link_timeout",
    NodeCrash "fault.node_crash",
    TaskSwitch "sched.task_switch",
    Blocked "sched.task_blocked",
    ClockJump "sched.clock_jump",
    Nested "sched.session_nested_in_stream_call",
    Skewed "fault.schema_skew",
    IllegalRef "fault.illegal_recursion",
    PMutualRec "probe.recursion_beyond_recursed_node",
    PRecDepth "probe.recursion_deeper_than_3",
    PBigEnum "probe.enum_over_256_variants",
    PHugeEnum "probe.enum_over_65536_variants",
    PLongStr "probe.string_over_64k",
    PLongSeq "probe.seq_over_127",
    PExtremeBlob "probe.blob_up_to_16M",
    PExtremeSeq "probe.seq_up_to_70000",
    PExtremeWidth "probe.tuple_or_struct_up_to_5000",
    PExtremeDepth "probe.nesting_up_to_400",
    PVast "probe.enum_of_131073_to_16777218_variants",
    PClimb "probe.recursion_over_300_to_132000_levels",
    PFarOutlaw "probe.illegal_recursion_far_down",
    PExtremeName "probe.name_up_to_280000_bytes",
    PTower "probe.schema_in_tower_up_to_140",
    PMiddling "probe.node_of_a_middling_width",
    PEmptySeq "probe.empty_seq",
    PWideVarint "probe.varint_over_9_bytes",
    PMalformed "probe.damage_seen_as_malformed",
    PTruncated "probe.damage_seen_as_truncated",
    PAcceptedDamage "probe.damage_is_another_message",
    PLimits "probe.length_over_platform",
    PIllegalHit "probe.illegal_reference_reached",
    PRejected "probe.call_rejected",
    PFinished "probe.message_completed",
    PRetry "probe.request_retried",
    PRecovered "probe.recovered_after_crash",
    PSkewFits "probe.skewed_value_conforms",
    PSkewCoerced "probe.skewed_value_coerced",
    PSkewShy "probe.coercible_but_refused",
    PSkewRefused "probe.skewed_value_refused",
    PSkewFirst "probe.refused_at_first_call",
    PLiesPassed "probe.lies_told_and_message_completed",
    POther "probe.other",
}

pub const NK: usize = K::Count as usize;

pub struct Core {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub log: Vec<u64>,
    pub trace: Option<Vec<String>>,
    pub digest: u64,
    pub events: u64,
    pub steps: u64,
    pub step_cap: u64,
    pub counts: [u64; NK],
    pub sim_time_us: u64,
    pub coding_calls: u64,
    pub record: Option<std::fs::File>,
}

#[derive(Clone)]
pub struct Ctx(Arc<Mutex<Core>>);

/// Panic payload: the run exceeded its step budget.
pub struct StepCap;
/// Panic payload: a simulated process crash.
pub struct CrashToken;

impl Ctx {
    fn make(rng: Option<Rng>, replay: Vec<u64>, trace: bool) -> Self {
        let _u = Unmetered::new();
        Ctx(Arc::new(Mutex::new(Core {
            rng,
            replay,
            pos: 0,
            log: Vec::with_capacity(512),
            trace: if trace { Some(Vec::new()) } else { None },
            digest: 0xcbf29ce484222325,
            events: 0,
            steps: 0,
            step_cap: 3_000_000,
            counts: [0; NK],
            sim_time_us: 0,
            coding_calls: 0,
            record: None,
        })))
    }
    pub fn random(seed: u64, trace: bool) -> Self {
        Self::make(Some(Rng::new(seed)), Vec::new(), trace)
    }
    pub fn replay(choices: Vec<u64>, trace: bool) -> Self {
        Self::make(None, choices, trace)
    }
    pub fn core(&self) -> MutexGuard<'_, Core> {
        match self.0.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }
    /// A choice in `0..n`.
    pub fn draw(&self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let _u = Unmetered::new();
        let mut c = self.core();
        let v = match c.rng.as_mut() {
            Some(r) => r.next() % n,
            None => {
                let v = c.replay.get(c.pos).copied().unwrap_or(0) % n;
                c.pos += 1;
                v
            }
        };
        c.log.push(v);
        if let Some(f) = c.record.as_mut() {
            use std::io::Write;
            let _ = f.write_all(format!("{} ", v).as_bytes());
        }
        v
    }
    pub fn below(&self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    pub fn range(&self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    /// True with probability num/den; the simplest choice is false.
    pub fn chance(&self, num: u64, den: u64) -> bool {
        num > 0 && self.draw(den) >= den - num
    }
    pub fn pick<'x, T>(&self, xs: &'x [T]) -> &'x T {
        &xs[self.below(xs.len())]
    }
    /// A full 64-bit choice.
    pub fn bits(&self) -> u64 {
        self.draw(u64::MAX)
    }
    pub fn bits128(&self) -> u128 {
        (self.bits() as u128) << 64 | self.bits() as u128
    }
    /// Record an event: folded into the digest, rendered only when tracing.
    pub fn ev<F: FnOnce() -> String>(&self, code: u64, a: u64, b: u64, f: F) {
        let _u = Unmetered::new();
        let mut c = self.core();
        c.events += 1;
        c.digest = mix(c.digest ^ code.wrapping_mul(0x100000001b3) ^ a.rotate_left(20) ^ b.rotate_left(41));
        if c.trace.is_some() {
            drop(c);
            let s = f();
            let mut c = self.core();
            let t = c.trace.as_mut().unwrap();
            if t.len() < 4000 {
                t.push(s);
            }
        }
    }
    pub fn count(&self, k: K) {
        self.core().counts[k as usize] += 1;
    }
    pub fn call(&self) {
        self.core().coding_calls += 1;
    }
    pub fn step(&self) {
        let over = {
            let mut c = self.core();
            c.steps += 1;
            c.steps > c.step_cap
        };
        if over {
            std::panic::panic_any(StepCap);
        }
    }
    /// Bytes moved are progress: they earn further steps, enough to move them one at a time.
    pub fn moved(&self, n: usize) {
        let mut c = self.core();
        c.step_cap = (c.step_cap + 6 * n as u64).min(400_000_000);
    }
    pub fn tracing(&self) -> bool {
        self.core().trace.is_some()
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w));
    }
    h ^ b.len() as u64
}

/// What a run found wrong.
#[derive(Debug, Clone)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub type Run = Result<(), Violation>;

pub fn viol<T>(class: &str, msg: String) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), msg })
}

#[macro_export]
macro_rules! must {
    ($c:expr, $class:expr, $($f:tt)*) => {
        if !$c { return $crate::ctx::viol($class, format!($($f)*)); }
    };
}
