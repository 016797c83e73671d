//! Merging worker results into the evidence file.

use crate::ctx::{KIND_NAMES, NK};
use crate::{Finding, World};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::path::Path;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

pub fn evidence(w: &World, tier: &str, seed: u64, jobs: u64, dir: &Path, verif: &Path, wall: f64, violations: u64, alt: bool, findings: &[Finding], met: &[String]) {
    let mut tot: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut counts = [0u64; NK];
    let mut hits = [0u64; NK];
    let mut samples = vec![];
    let mut all = HashSet::new();
    let mut nontrivial = HashSet::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    for j in 0..jobs {
        for l in std::fs::read_to_string(dir.join(format!("result-{}", j))).unwrap_or_default().lines() {
            let f: Vec<&str> = l.split(' ').collect();
            for k in ["n", "steps", "sim_us", "calls", "events", "rechecked", "unrepeatable"] {
                if f[0] == k {
                    *tot.entry(k).or_default() += f[1].parse().unwrap_or(0);
                }
            }
            if f[0] == "count" {
                let k: usize = f[1].parse().unwrap();
                counts[k] += f[2].parse::<u64>().unwrap_or(0);
                hits[k] += f[3].parse::<u64>().unwrap_or(0);
            }
            if let Some(s) = l.strip_prefix("sample ") {
                samples.push(s.chars().take(3000).collect::<String>());
            }
            if let Some(s) = l.strip_prefix("known ") {
                if let Some((n, what)) = s.split_once(' ') {
                    *known.entry(what.into()).or_default() += n.parse().unwrap_or(0);
                }
            }
        }
        for c in std::fs::read(dir.join(format!("digests-{}", j))).unwrap_or_default().chunks_exact(9) {
            let d = u64::from_le_bytes(c[..8].try_into().unwrap());
            all.insert(d);
            if c[8] == 1 {
                nontrivial.insert(d);
            }
        }
    }
    for f in findings.iter().filter(|f| f.property == w.id) {
        let n = known.get(&f.what).copied().unwrap_or(0) + met.iter().filter(|m| **m == f.what).count() as u64;
        if n > 0 {
            println!("KNOWN-FINDING: property={} {} (met in {} runs)", w.id, f.what, n);
        }
    }
    let g = |k: &str| tot.get(k).copied().unwrap_or(0);
    let runs = g("n");
    let mut faults = vec![];
    let mut sched = vec![];
    let mut probes = vec![];
    for k in 0..NK {
        if let Some(n) = KIND_NAMES[k].strip_prefix("fault.") {
            if counts[k] > 0 {
                faults.push(format!("{}: {{\"injected\": {}, \"runs_with\": {}}}", js(n), counts[k], hits[k]));
            }
        } else if let Some(n) = KIND_NAMES[k].strip_prefix("sched.") {
            if counts[k] > 0 {
                sched.push(format!("{}: {}", js(n), counts[k]));
            }
        } else if let Some(n) = KIND_NAMES[k].strip_prefix("probe.") {
            if counts[k] > 0 {
                probes.push(format!("{}: {}", js(n), counts[k]));
            }
        }
    }
    let (real, stub) = components(w.id);
    let out = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"runs_per_hour\": {:.0},\n  \"seeds_per_hour\": {:.0},\n  \"master_seed\": {},\n  \"worker_processes\": {},\n  \"simulated_time_s\": {:.6},\n  \"simulated_time_note\": {},\n  \"stream_and_scheduler_steps\": {},\n  \"library_calls\": {},\n  \"recorded_events\": {},\n  \"faults_injected\": {{{}}},\n  \"scheduling\": {{{}}},\n  \"probes\": {{{}}},\n  \"distinct_executions\": {},\n  \"distinct_executions_measure\": \"64-bit digest of the ordered event history of a run (every stream call with its size and offset, every coding call with its outcome, every scheduling decision, fault and clock jump)\",\n  \"runs_repeated_to_prove_determinism\": {},\n  \"of_these_not_identical\": {},\n  \"components_real\": {},\n  \"components_stub\": {},\n  \"builds\": {},\n  \"known_findings_met\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        js(w.id),
        js(tier),
        seed,
        runs,
        nontrivial.len(),
        js(&format!("One case is one simulated run of world '{}', fully determined by hash(seed, property, run index). Non-trivial: the run made at least one call into the library and at least one fault, adverse scheduling decision or misuse was actually injected. Distinct: different event digest.", w.name)),
        list(&samples),
        runs as f64 * 3600.0 / wall.max(0.001),
        runs as f64 * 3600.0 / wall.max(0.001),
        seed,
        jobs,
        g("sim_us") as f64 / 1e6,
        js(if g("sim_us") > 0 { "discrete-event clock of the kernel" } else { "this world has no clock: its schedule is the order of stream calls" }),
        g("steps"),
        g("calls"),
        g("events"),
        faults.join(", "),
        sched.join(", "),
        probes.join(", "),
        all.len(),
        g("rechecked"),
        g("unrepeatable"),
        list(&real),
        list(&stub),
        list(&if alt { vec!["opt-level 2 with debug assertions and overflow checks (even workers)".into(), "opt-level 2 without them, as shipped (odd workers)".into()] } else { vec!["opt-level 2 with debug assertions and overflow checks".to_string()] }),
        list(met),
        list(&["the reference model in sim/src/model.rs reads FORMAT.txt as intended".to_string(), "rustc, std and serde are correct".into(), "sampling: a violation not met by the runs made is not excluded".into()]),
        wall,
        violations
    );
    let ev = verif.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    std::fs::write(ev.join(format!("{}.json", w.id)), out).expect("write evidence");
}

fn components(id: &str) -> (Vec<String>, Vec<String>) {
    let mut real = vec!["binschema::Encoder/Decoder", "binschema::coder (CoderState, CoderStateAlloc)", "binschema::var_len", "binschema::error"];
    let mut stub = vec!["byte streams (std::io::Read/Write implementations)", "global allocator (checked, metered)"];
    if !matches!(id, "S08" | "S09") {
        real.extend(["binschema::value", "binschema::serde (serializer and deserializer)"]);
    }
    match id {
        "S03" | "S15" => stub.extend(["task scheduler", "clock and timers", "network links", "application logic of the peers"]),
        "S06" => stub.extend(["disk with durable and volatile parts", "log application and its recovery"]),
        "S11" => stub.push("debug-log writer"),
        "S12" => real.push("binschema::known_schema for Schema itself"),
        "S13" | "S16" => real.extend(["binschema::known_schema", "binschema_derive output", "serde_derive output"]),
        _ => {}
    }
    (real.iter().map(|s| s.to_string()).collect(), stub.iter().map(|s| s.to_string()).collect())
}
