//! Driver: shards runs over worker processes, attributes crashes and hangs, minimises and confirms
//! violations, writes replay files and evidence.

mod abyss;
mod alloc;
mod ctx;
mod gen;
mod kernel;
mod liar;
mod model;
mod paths;
mod report;
mod sess;
mod shrink;
mod skew;
mod stream;
mod worlds;
mod typed;
mod worlds2;

use ctx::{mix, Ctx, Run, StepCap, Violation, KIND_NAMES, NK};
use std::collections::HashMap;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

/// Worlds whose runs must be repeated exactly, and how many runs each tier makes.
pub struct World {
    pub id: &'static str,
    pub name: &'static str,
    pub run: fn(&Ctx) -> Run,
    pub quick: u64,
    pub thorough: u64,
}

pub const WORLDS: &[World] = &[
    World { id: "S01", name: "courier", run: worlds::courier, quick: 600_000, thorough: 18000_000 },
    World { id: "S02", name: "scribe", run: worlds::scribe, quick: 800_000, thorough: 24000_000 },
    World { id: "S03", name: "line", run: worlds2::line, quick: 40_000, thorough: 1200_000 },
    World { id: "S04", name: "failstop", run: worlds::failstop, quick: 1000_000, thorough: 30000_000 },
    World { id: "S05", name: "damage", run: worlds::damage_world, quick: 1500_000, thorough: 45000_000 },
    World { id: "S06", name: "wal", run: worlds2::wal, quick: 250_000, thorough: 7500_000 },
    World { id: "S07", name: "hoard", run: worlds::hoard, quick: 200_000, thorough: 6000_000 },
    World { id: "S08", name: "misuse", run: worlds::misuse, quick: 80_000, thorough: 2400_000 },
    World { id: "S09", name: "completion", run: worlds::completion_world, quick: 300_000, thorough: 9000_000 },
    World { id: "S10", name: "pool", run: worlds::pool_world, quick: 50_000, thorough: 1800_000 },
    World { id: "S11", name: "twin", run: worlds::twin, quick: 200_000, thorough: 6000_000 },
    World { id: "S12", name: "handshake", run: worlds2::handshake, quick: 600_000, thorough: 18000_000 },
    World { id: "S13", name: "typed", run: typed::typed, quick: 1200_000, thorough: 36000_000 },
    World { id: "S14", name: "outlaw", run: worlds::outlaw, quick: 500_000, thorough: 15000_000 },
    World { id: "S15", name: "service", run: worlds2::service, quick: 30_000, thorough: 900_000 },
    World { id: "S16", name: "skew", run: skew::skew, quick: 1200_000, thorough: 36000_000 },
    World { id: "S17", name: "liar", run: liar::liar, quick: 3000_000, thorough: 90000_000 },
];

pub fn world(id: &str) -> &'static World {
    match WORLDS.iter().chain(abyss::ABYSS).find(|w| w.id == id) {
        Some(w) => w,
        None => {
            eprintln!("no such property: {}", id);
            std::process::exit(2)
        }
    }
}

/// The seed of one run.
pub fn run_seed(seed: u64, id: &str, index: u64) -> u64 {
    mix(mix(seed ^ mix(ctx::hash_bytes(id.as_bytes()))) ^ index)
}

static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            return; // simulator tokens
        };
        let loc = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        if let Ok(mut g) = LAST_PANIC.lock() {
            if g.is_none() {
                *g = Some(format!("{}{}", msg, loc));
            }
        }
    }));
}

/// Execute one run; every panic is a violation.
pub fn execute(w: &World, ctx: &Ctx) -> Run {
    *LAST_PANIC.lock().unwrap() = None;
    match catch_unwind(AssertUnwindSafe(|| (w.run)(ctx))) {
        Ok(r) => r,
        Err(p) => {
            if p.is::<StepCap>() {
                return Err(Violation { class: "hang".into(), msg: "the run exceeded its step budget without ending".into() });
            }
            let m = LAST_PANIC.lock().unwrap().take().unwrap_or_else(|| "panic".into());
            let at = m.rsplit(" at ").next().unwrap_or("").split(':').next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string();
            Err(Violation { class: format!("panic in {}", at), msg: format!("panic: {}", m) })
        }
    }
}

/// Run on a thread with a large stack.
fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, f).expect("thread").join().unwrap_or_else(|_| std::process::exit(3)))
}

// ---- known findings ----

pub struct Finding {
    pub property: String,
    pub class: String,
    pub matching: String,
    pub what: String,
}

/// Lines "finding: property=<id> class=<class> match=<text in the message> :: <what fails>".
pub fn findings(path: &Path) -> Vec<Finding> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(l) = l.strip_prefix("finding: ") {
            if let Some((head, what)) = l.split_once(" :: ") {
                let grab = |key: &str, next: &str| head.split_once(key).map(|x| x.1.split(next).next().unwrap_or("").to_string()).unwrap_or_default();
                v.push(Finding { property: grab("property=", " "), class: grab("class=", " match="), matching: head.split_once("match=").map(|x| x.1.to_string()).unwrap_or_default(), what: what.into() });
            }
        }
    }
    v
}

pub fn known<'f>(fs: &'f [Finding], id: &str, v: &Violation) -> Option<&'f Finding> {
    fs.iter().find(|f| f.property == id && f.class == v.class && v.msg.contains(&f.matching))
}

// ---- worker ----

struct Args(HashMap<String, String>, Vec<String>);
impl Args {
    fn parse() -> Self {
        let mut m = HashMap::new();
        let mut p = vec![];
        let mut it = std::env::args().skip(1);
        while let Some(a) = it.next() {
            if let Some(k) = a.strip_prefix("--") {
                m.insert(k.to_string(), it.next().unwrap_or_default());
            } else {
                p.push(a);
            }
        }
        Args(m, p)
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    fn str(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.into())
    }
}

/// Progress record: run index + 1, then a phase (0 run, 1 shrinking).
fn progress(f: &std::fs::File, index: u64, phase: u64) {
    let mut b = [0u8; 16];
    b[..8].copy_from_slice(&(index + 1).to_le_bytes());
    b[8..].copy_from_slice(&phase.to_le_bytes());
    let _ = f.write_at(&b, 0);
}

fn worker(a: &Args) -> ExitCode {
    let w = world(&a.1[1]);
    let (seed, start, stride, runs) = (a.num("seed", 1), a.num("start", 0), a.num("stride", 1), a.num("runs", 1));
    let dir = PathBuf::from(a.str("dir", "."));
    let tag = a.str("tag", "0");
    let max = Duration::from_secs(a.num("max-secs", 3600));
    let fs = findings(Path::new(&a.str("findings", "")));
    let prog = std::fs::File::create(dir.join(format!("progress-{}", tag))).expect("progress file");
    on_big_stack(|| {
        let t0 = Instant::now();
        let mut counts = [0u64; NK];
        let mut hit = [0u64; NK];
        let (mut n, mut steps, mut sim_us, mut calls, mut events) = (0u64, 0u64, 0u64, 0u64, 0u64);
        let mut digests: Vec<(u64, bool)> = vec![];
        let mut samples = vec![];
        let mut rechecked = 0u64;
        let mut unrepeatable = 0u64;
        let mut known_hits: HashMap<String, u64> = HashMap::new();
        let mut found = None;
        let mut i = start;
        while i < runs {
            if t0.elapsed() > max {
                break;
            }
            progress(&prog, i, 0);
            let s = run_seed(seed, w.id, i);
            let want_sample = samples.len() < 1 && n > 20 && tag == "0";
            let ctx = Ctx::random(s, want_sample);
            let r = execute(w, &ctx);
            n += 1;
            let mut c = ctx.core();
            for k in 0..NK {
                counts[k] += c.counts[k];
                hit[k] += (c.counts[k] > 0) as u64;
            }
            steps += c.steps;
            sim_us += c.sim_time_us;
            calls += c.coding_calls;
            events += c.events;
            let nontrivial = c.coding_calls > 0 && KIND_NAMES.iter().enumerate().any(|(k, n)| c.counts[k] > 0 && !n.starts_with("probe."));
            digests.push((c.digest, nontrivial));
            let digest = c.digest;
            if let Some(t) = c.trace.take() {
                if nontrivial && t.len() < 60 && r.is_ok() {
                    samples.push(format!("run {} seed {:#x}: {}", i, s, t.join(" | ")));
                }
            }
            drop(c);
            if let Err(v) = r {
                if let Some(f) = known(&fs, w.id, &v) {
                    *known_hits.entry(f.what.clone()).or_default() += 1;
                } else {
                    progress(&prog, i, 1);
                    let log = ctx.core().log.clone();
                    let file = shrink::in_process(w, log, v, &format!("seed {} run {} ({:#x})", seed, i, s));
                    let p = dir.join(format!("found-{}", tag));
                    std::fs::write(&p, file).expect("write");
                    found = Some(i);
                    break;
                }
            } else if i % 64 == 0 {
                // the same seed again must be the same execution
                rechecked += 1;
                let again = Ctx::random(s, false);
                let r2 = execute(w, &again);
                if let Err(v) = r2 {
                    // the code under test remembers something from one run to the next
                    progress(&prog, i, 1);
                    let file = shrink::file(w, &v, &format!("seed {} run {} ({:#x}), second time", seed, i, s), &again.core().log, "");
                    std::fs::write(dir.join(format!("found-{}", tag)), file).expect("write");
                    found = Some(i);
                    break;
                }
                unrepeatable += (again.core().digest != digest) as u64;
            }
            i += stride;
        }
        let mut out = String::new();
        use std::fmt::Write as _;
        let _ = writeln!(out, "n {}\nsteps {}\nsim_us {}\ncalls {}\nevents {}\nrechecked {}\nunrepeatable {}\nfound {}", n, steps, sim_us, calls, events, rechecked, unrepeatable, found.map_or(-1, |x: u64| x as i64));
        for k in 0..NK {
            if counts[k] > 0 {
                let _ = writeln!(out, "count {} {} {}", k, counts[k], hit[k]);
            }
        }
        for (k, v) in &known_hits {
            let _ = writeln!(out, "known {} {}", v, k);
        }
        for s in &samples {
            let _ = writeln!(out, "sample {}", s.replace('\n', " "));
        }
        let mut d = Vec::with_capacity(digests.len() * 9);
        for (x, nt) in digests {
            d.extend(x.to_le_bytes());
            d.push(nt as u8);
        }
        std::fs::write(dir.join(format!("digests-{}", tag)), d).expect("write");
        std::fs::write(dir.join(format!("result-{}", tag)), out).expect("write");
    });
    ExitCode::SUCCESS
}

// ---- parent ----

pub struct Child {
    pub ended: Option<std::process::ExitStatus>,
    pub stderr: String,
    pub hung: bool,
}

/// None of these takes a noticeable time unless it never ends.
const ABYSS_LIMIT: Duration = Duration::from_secs(5);

/// The processor time a child of ours has used: on a busy machine the wall clock says little about a hang.
fn cpu_time(ch: &std::process::Child) -> Duration {
    let t = std::fs::read_to_string(format!("/proc/{}/stat", ch.id())).unwrap_or_default();
    let f: Vec<u64> = t.rsplit(')').next().unwrap_or("").split_whitespace().skip(11).take(2).filter_map(|x| x.parse().ok()).collect();
    Duration::from_millis(f.iter().sum::<u64>() * 10)
}

/// Too long without progress: in processor time, or (blocked, or on a very busy machine) five times that.
fn too_long(ch: &std::process::Child, since: Instant, cpu_since: Duration, limit: Duration) -> bool {
    since.elapsed() > limit && (cpu_time(ch).saturating_sub(cpu_since) > limit || since.elapsed() > limit * 5)
}

/// Run a child with a limit on its processor time, keeping the tail of its stderr.
pub fn run_child(mut c: Command, limit: Duration) -> Child {
    let mut ch = c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().expect("spawn");
    let err = ch.stderr.take().unwrap();
    let t = std::thread::spawn(move || tail(err));
    let t0 = Instant::now();
    let mut hung = false;
    let ended = loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            break Some(s);
        }
        if too_long(&ch, t0, Duration::ZERO, limit) {
            let _ = ch.kill();
            let _ = ch.wait();
            hung = true;
            break None;
        }
        std::thread::sleep(Duration::from_millis(3));
    };
    Child { ended, stderr: t.join().unwrap_or_default(), hung }
}

fn tail(mut r: impl std::io::Read) -> String {
    let mut keep = Vec::new();
    let mut b = [0u8; 4096];
    while let Ok(n) = r.read(&mut b) {
        if n == 0 {
            break;
        }
        keep.extend_from_slice(&b[..n]);
        if keep.len() > 16384 {
            let cut = keep.len() - 8192;
            keep.drain(..cut);
        }
    }
    String::from_utf8_lossy(&keep).into_owned()
}

pub fn death_of(c: &Child) -> Violation {
    use std::os::unix::process::ExitStatusExt;
    if c.hung {
        return Violation { class: "hang".into(), msg: "the run did not end".into() };
    }
    let s = c.ended.unwrap();
    let line = c.stderr.lines().rev().find(|l| !l.trim().is_empty() && !l.starts_with("fatal runtime error")).unwrap_or("").trim().to_string();
    let line = if c.stderr.contains("has overflowed its stack") { "stack overflow".to_string() } else { line };
    match s.signal() {
        Some(sig) => Violation { class: format!("process death by signal {}", sig), msg: format!("the process died of signal {}: {}", sig, line) },
        None => Violation { class: format!("process exit {}", s.code().unwrap_or(-1)), msg: format!("the process exited with {}: {}", s.code().unwrap_or(-1), line) },
    }
}

/// Replay in fresh processes: exactly, or at least in some form.
fn confirm(bin: &Path, path: &Path, tries: usize) -> Option<&'static str> {
    let mut how = None;
    for _ in 0..tries {
        let mut c = Command::new(bin);
        c.arg("replay").arg(path).arg("--quiet").arg("1");
        match run_child(c, Duration::from_secs(120)).ended.and_then(|s| s.code()) {
            Some(1) => return Some(""),
            Some(3) => how = Some(" (what fails differs from process to process)"),
            _ => {}
        }
    }
    how
}

fn check(a: &Args) -> ExitCode {
    let t0 = Instant::now();
    match check_once(a, t0) {
        // a worker was lost which did nothing wrong: the machine's doing, so once more
        Some(x) => x,
        None => check_once(a, t0).unwrap_or(ExitCode::from(2)),
    }
}

fn check_once(a: &Args, t0: Instant) -> Option<ExitCode> {
    let w = world(&a.1[1]);
    let tier = a.str("tier", "quick");
    let seed = a.num("seed", 1);
    let jobs = a.num("jobs", std::thread::available_parallelism().map_or(4, |n| n.get() as u64)).max(1);
    let runs = a.num("runs", if tier == "thorough" { w.thorough } else { w.quick });
    let max_secs = a.num("max-secs", if tier == "thorough" { 600 } else { 150 });
    let verif = PathBuf::from(a.str("verif", "/verif"));
    let alt = a.0.get("alt").cloned();
    let findings_path = verif.join("known_findings.txt");
    let dir = std::env::temp_dir().join(format!("sim-{}-{}", w.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let me = std::env::current_exe().expect("exe");

    struct W {
        ch: std::process::Child,
        err: Option<std::thread::JoinHandle<String>>,
        tag: u64,
        bin: PathBuf,
        last: (u64, u64),
        since: Instant,
        cpu: Duration,
        over: bool,
    }
    let mut ws: Vec<W> = vec![];
    for j in 0..jobs {
        let bin = match &alt {
            Some(alt) if j % 2 == 1 => PathBuf::from(alt),
            _ => me.clone(),
        };
        let mut c = Command::new(&bin);
        c.arg("worker").arg(w.id);
        for (k, v) in [("seed", seed), ("start", j), ("stride", jobs), ("runs", runs), ("tag", j), ("max-secs", max_secs)] {
            c.arg(format!("--{}", k)).arg(v.to_string());
        }
        c.arg("--dir").arg(&dir).arg("--findings").arg(&findings_path);
        let mut ch = c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().expect("spawn worker");
        let e = ch.stderr.take().unwrap();
        ws.push(W { ch, err: Some(std::thread::spawn(move || tail(e))), tag: j, bin, last: (0, 0), since: Instant::now(), cpu: Duration::ZERO, over: false });
    }
    let read_progress = |tag: u64| -> (u64, u64) {
        let b = std::fs::read(dir.join(format!("progress-{}", tag))).unwrap_or_default();
        if b.len() < 16 {
            return (0, 0);
        }
        (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..16].try_into().unwrap()))
    };
    // (run index, replay file text)
    let mut found: Vec<(u64, String, PathBuf)> = vec![];
    let mut dead: Vec<(u64, Violation, PathBuf)> = vec![];
    let mut broken = None;
    while ws.iter().any(|x| !x.over) {
        std::thread::sleep(Duration::from_millis(10));
        for x in ws.iter_mut().filter(|x| !x.over) {
            let p = read_progress(x.tag);
            if p != x.last {
                x.last = p;
                x.since = Instant::now();
                x.cpu = Duration::MAX;
            }
            let limit = if p.1 == 1 { 120 } else { 45 };
            let mut hung = false;
            if x.cpu == Duration::MAX && x.since.elapsed() > Duration::from_secs(1) {
                // taken late, as most runs are over long before
                x.cpu = cpu_time(&x.ch);
            }
            let st = match x.ch.try_wait().expect("wait") {
                Some(s) => Some(s),
                None if too_long(&x.ch, x.since, x.cpu, Duration::from_secs(limit)) => {
                    let _ = x.ch.kill();
                    let _ = x.ch.wait();
                    hung = true;
                    None
                }
                None => continue,
            };
            x.over = true;
            let stderr = x.err.take().unwrap().join().unwrap_or_default();
            if st.map_or(false, |s| s.success()) {
                let f = dir.join(format!("found-{}", x.tag));
                if let Ok(t) = std::fs::read_to_string(&f) {
                    found.push((p.0 - 1, t, x.bin.clone()));
                }
            } else if st.map_or(false, |s| s.code() == Some(4)) || p.0 == 0 {
                broken = Some(stderr);
            } else {
                let v = death_of(&Child { ended: st, stderr, hung });
                dead.push((p.0 - 1, v, x.bin.clone()));
            }
        }
        if !found.is_empty() || !dead.is_empty() || broken.is_some() {
            // a verdict exists; give the others a moment to report theirs
            let grace = Instant::now();
            while grace.elapsed() < Duration::from_secs(if found.is_empty() { 1 } else { 0 }) && ws.iter().any(|x| !x.over && x.last.1 == 1) {
                std::thread::sleep(Duration::from_millis(50));
                break;
            }
            for x in ws.iter_mut().filter(|x| !x.over) {
                if read_progress(x.tag).1 == 1 {
                    continue; // minimising: let it finish
                }
                let _ = x.ch.kill();
                let _ = x.ch.wait();
                x.over = true;
                let _ = x.err.take().unwrap().join();
            }
        }
    }
    if let (Some(b), true, true) = (&broken, found.is_empty(), dead.is_empty()) {
        eprintln!("sim: the machinery failed: {}", b);
        let _ = std::fs::remove_dir_all(&dir);
        return Some(ExitCode::from(2));
    }
    // crashes and hangs: isolate and minimise in child processes
    for (i, v, bin) in &dead {
        if !found.is_empty() {
            break;
        }
        let s = run_seed(seed, w.id, *i);
        let origin = format!("seed {} run {} ({:#x})", seed, i, s);
        match shrink::isolated(w, bin, &dir, s, v.clone(), &origin) {
            Some(t) => found.push((*i, t, bin.clone())),
            // not by itself
            None => found.push((*i, shrink::file(w, v, &origin, &[], ""), bin.clone())),
        }
    }
    found.sort_by_key(|f| f.0);
    let (all_findings, mut met) = (findings(&findings_path), vec![]);
    // runs whose failure ends the process, one by one, on the build as shipped if there is one
    if found.is_empty() {
        for x in abyss::ABYSS.iter().filter(|x| x.id.split('/').next() == Some(w.id)) {
            let bin = alt.as_ref().map_or(me.clone(), PathBuf::from);
            let s = run_seed(seed, x.id, 0);
            let (rec, input) = (dir.join("abyss-record"), dir.join("abyss"));
            let origin = format!("seed {} ({:#x})", seed, s);
            let none = Violation { class: String::new(), msg: String::new() };
            std::fs::write(&input, shrink::file(x, &none, &origin, &[], "")).expect("write");
            let mut c = Command::new(&bin);
            c.arg("inner").arg(&input).arg("--random").arg(s.to_string()).arg("--record").arg(&rec);
            let r = run_child(c, ABYSS_LIMIT);
            if let Some(v) = verdict_of(&r) {
                let what = x.id.split('/').nth(1).unwrap_or("");
                match all_findings.iter().find(|f| f.property == w.id && f.matching == what && f.class == v.class) {
                    Some(f) => met.push(f.what.clone()),
                    None => {
                        let log: Vec<u64> = std::fs::read_to_string(&rec).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
                        found.push((0, shrink::file(x, &v, &origin, &log, "(run with `inner FILE --trace OUT`)"), bin));
                    }
                }
            }
        }
    }
    let mut violations = 0;
    let replays = verif.join("replays");
    let mut unconfirmed = vec![];
    let mut classes = std::collections::HashSet::new();
    for (i, text, bin) in &found {
        let i = *i;
        // one report per kind of violation
        if !classes.insert(text.lines().find(|l| l.starts_with("class ")).unwrap_or("").to_string()) {
            continue;
        }
        let _ = std::fs::create_dir_all(&replays);
        // the build it happened in, for check.sh to replay it with
        let text = &if *bin == me { text.clone() } else { text.replacen("\nbuild assertions\n", "\nbuild shipped\n", 1) };
        let path = replays.join(format!("{}-{:016x}.replay", w.id, ctx::hash_bytes(text.as_bytes())));
        std::fs::write(&path, text).expect("write replay");
        let field = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
        // exactly, in the first fresh process, unless the code under test depends on what no simulator
        // decides (uninitialised or freed memory): then in some form, in one of a few
        let mut how = confirm(bin, &path, 4);
        if how.is_none() {
            // it may need what the worker ran before
            let (j, mut back) = (i % jobs, 1);
            while how.is_none() {
                let from = if i / jobs > back { i - back * jobs } else { j };
                let t = text.replacen("choices ", &format!("history {} {} {} {}\nchoices ", seed, from, jobs, i), 1);
                std::fs::write(&path, t).expect("write replay");
                how = confirm(bin, &path, 1).map(|_| " (needs the runs before it in the same process)");
                if from == j || back > 4096 || t0.elapsed() > Duration::from_secs(500) {
                    break;
                }
                back *= 8;
            }
        }
        if let Some(how) = how {
            violations += 1;
            println!("{} [{}] {}{}", w.id, field("class "), field("message "), how);
            println!("VIOLATION property={} replay={}", w.id, path.display());
        } else {
            unconfirmed.push(format!("{} [{}] {} ({})", w.id, field("class "), field("message "), path.display()));
        }
    }
    for u in &unconfirmed {
        eprintln!("sim: not reproduced in a fresh process: {}", u);
    }
    report::evidence(w, &tier, seed, jobs, &dir, &verif, t0.elapsed().as_secs_f64(), violations, alt.is_some(), &all_findings, &met);
    let _ = std::fs::remove_dir_all(&dir);
    Some(if violations > 0 {
        ExitCode::from(1)
    } else if !dead.is_empty() {
        for d in &dead {
            eprintln!("sim: worker lost at run {}: {} {}", d.0, d.1.class, d.1.msg);
        }
        return None;
    } else if !unconfirmed.is_empty() {
        ExitCode::from(2)
    } else {
        println!("{} held on everything explored", w.id);
        ExitCode::SUCCESS
    })
}

// ---- replay ----

pub struct ReplayFile {
    pub property: String,
    pub class: String,
    pub message: String,
    pub choices: Vec<u64>,
    /// master seed, first run, stride and last run, where the violation needs the runs before it
    pub history: String,
}

pub fn parse_replay(text: &str) -> ReplayFile {
    let field = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    ReplayFile { property: field("property "), class: field("class "), message: field("message "), choices: field("choices ").split_whitespace().filter_map(|x| x.parse().ok()).collect(), history: field("history ") }
}

pub fn one_line(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// A message with addresses and the like taken out, which may differ from process to process.
fn steady(s: &str) -> String {
    let mut out = String::new();
    let mut digits = String::new();
    for c in one_line(s).chars().chain([' ']) {
        if c.is_ascii_hexdigit() || (c == 'x' && digits == "0") {
            digits.push(c);
            continue;
        }
        if digits.len() >= 10 {
            out.push('#');
        } else {
            out.push_str(&digits);
        }
        digits.clear();
        out.push(c);
    }
    out
}

/// The same way of failing: which signal corrupted memory ends in is not determined.
fn same_class(a: &str, b: &str) -> bool {
    a == b || (a.starts_with("process death") && b.starts_with("process death"))
}

/// In a child: run the choices of a file. Exit 0: held; 10: the violation is on stderr's last line.
fn inner(a: &Args) -> ExitCode {
    let text = std::fs::read_to_string(&a.1[1]).expect("replay file");
    let f = parse_replay(&text);
    let w = world(&f.property);
    on_big_stack(|| {
        let h: Vec<u64> = f.history.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if let [seed, from, stride, upto] = h[..] {
            // what the worker did, run by run, up to and including the violation
            let mut i = from;
            let mut last = Ok(());
            while i <= upto && last.is_ok() {
                let s = run_seed(seed, w.id, i);
                last = execute(w, &Ctx::random(s, false));
                if last.is_ok() && i % 64 == 0 {
                    last = execute(w, &Ctx::random(s, false));
                }
                i += stride;
            }
            return match last {
                Ok(()) => ExitCode::SUCCESS,
                Err(v) => {
                    let _ = writeln!(std::io::stderr(), "\nVCLASS {}\nVMSG {}", v.class, one_line(&v.msg));
                    ExitCode::from(10)
                }
            };
        }
        let ctx = match a.0.get("random") {
            Some(s) => Ctx::random(s.parse().unwrap(), false),
            None => Ctx::replay(f.choices.clone(), a.0.contains_key("trace")),
        };
        if let Some(p) = a.0.get("record") {
            ctx.core().record = Some(std::fs::File::create(p).expect("record"));
        }
        let r = execute(w, &ctx);
        if let Some(p) = a.0.get("trace") {
            let t = ctx.core().trace.take().unwrap_or_default();
            let _ = std::fs::write(p, t.join("\n"));
        }
        match r {
            Ok(()) => ExitCode::SUCCESS,
            Err(v) => {
                let _ = writeln!(std::io::stderr(), "\nVCLASS {}\nVMSG {}", v.class, one_line(&v.msg));
                ExitCode::from(10)
            }
        }
    })
}

pub fn verdict_of(c: &Child) -> Option<Violation> {
    match c.ended.and_then(|s| s.code()) {
        Some(0) => None,
        Some(10) => {
            let f = |k: &str| c.stderr.lines().rev().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
            Some(Violation { class: f("VCLASS "), msg: f("VMSG ") })
        }
        _ => Some(death_of(c)),
    }
}

fn replay(a: &Args) -> ExitCode {
    let path = &a.1[1];
    let f = parse_replay(&std::fs::read_to_string(path).expect("replay file"));
    let quiet = a.0.contains_key("quiet");
    let tr = std::env::temp_dir().join(format!("sim-trace-{}", std::process::id()));
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("inner").arg(path);
    if !quiet {
        c.arg("--trace").arg(&tr);
    }
    let r = run_child(c, Duration::from_secs(if f.history.is_empty() { 45 } else { 100 }));
    if !quiet {
        println!("{}", std::fs::read_to_string(&tr).unwrap_or_default());
        let _ = std::fs::remove_file(&tr);
    }
    match verdict_of(&r) {
        Some(v) if same_class(&v.class, &f.class) && (f.class.starts_with("process") || f.class == "hang" || steady(&v.msg) == steady(&f.message)) => {
            if !quiet {
                println!("{} [{}] {}", f.property, v.class, one_line(&v.msg));
                println!("VIOLATION property={} replay={}", f.property.split('/').next().unwrap_or(""), path);
            }
            ExitCode::from(1)
        }
        Some(v) => {
            eprintln!("a different violation: [{}] {}", v.class, v.msg);
            ExitCode::from(3)
        }
        None => {
            println!("{} held on this schedule", f.property);
            ExitCode::SUCCESS
        }
    }
}

fn main() -> ExitCode {
    install_hook();
    let a = Args::parse();
    match a.1.first().map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("worker") => worker(&a),
        Some("inner") => inner(&a),
        Some("replay") => replay(&a),
        Some("one") => {
            let w = world(&a.1[1]);
            let i: u64 = a.1[2].parse().expect("run index");
            on_big_stack(|| {
                let ctx = Ctx::random(run_seed(a.num("seed", 1), w.id, i), true);
                let r = execute(w, &ctx);
                println!("{}", ctx.core().trace.take().unwrap().join("\n"));
                println!("digest {:016x} {:?}", ctx.core().digest, r);
            });
            ExitCode::SUCCESS
        }
        Some("digests") => {
            // print the digest of every run: used to prove repeatability across processes
            let w = world(&a.1[1]);
            on_big_stack(|| {
                for i in 0..a.num("runs", 100) {
                    let ctx = Ctx::random(run_seed(a.num("seed", 1), w.id, i), false);
                    let r = execute(w, &ctx);
                    println!("{} {:016x} {}", i, ctx.core().digest, r.is_ok());
                }
            });
            ExitCode::SUCCESS
        }
        _ => {
            eprintln!("usage: sim check|replay|one|digests ...");
            ExitCode::from(2)
        }
    }
}
