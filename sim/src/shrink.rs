//! Minimising the choices of a failing run.

use crate::ctx::{Ctx, Violation};
use crate::{execute, one_line, run_child, verdict_of, World};
use std::path::Path;
use std::process::Command;
use std::time::{Duration, Instant};

/// Delete, zero and lower choices while `test` holds. `test` returns the choices actually used.
fn minimise(mut cur: Vec<u64>, mut budget: usize, until: Instant, test: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    macro_rules! attempt {
        ($c:expr) => {{
            let c: Vec<u64> = $c;
            if budget == 0 || Instant::now() > until {
                return cur;
            }
            budget -= 1;
            match test(&c) {
                Some(mut used) => {
                    while used.last() == Some(&0) {
                        used.pop();
                    }
                    if (used.len(), &used) < (cur.len(), &cur) {
                        cur = used;
                    }
                    true
                }
                None => false,
            }
        }};
    }
    loop {
        let before = cur.clone();
        // cut the end off
        let mut keep = cur.len() / 2;
        while keep < cur.len() {
            if !attempt!(cur[..keep].to_vec()) {
                keep += ((cur.len() - keep) / 2).max(1);
            } else {
                keep = cur.len() / 2;
                if cur.is_empty() {
                    break;
                }
            }
        }
        // delete and zero chunks
        let mut size = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.len() {
                let end = (i + size).min(cur.len());
                let mut c = cur.clone();
                c.drain(i..end);
                if attempt!(c) {
                    continue;
                }
                let end = (i + size).min(cur.len());
                if cur[i..end].iter().any(|x| *x != 0) {
                    let mut c = cur.clone();
                    c[i..end].iter_mut().for_each(|x| *x = 0);
                    attempt!(c);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single choices
        let mut i = 0;
        while i < cur.len() {
            for f in [|x: u64| 1.min(x), |x: u64| x / 2, |x: u64| x.saturating_sub(1)] {
                while i < cur.len() && f(cur[i]) < cur[i] {
                    let mut c = cur.clone();
                    c[i] = f(c[i]);
                    let old = cur[i];
                    attempt!(c);
                    if i >= cur.len() || cur[i] == old {
                        break;
                    }
                }
            }
            i += 1;
        }
        if cur == before {
            return cur;
        }
    }
}

pub fn file(w: &World, v: &Violation, origin: &str, choices: &[u64], trace: &str) -> String {
    let c: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
    format!(
        "sim-replay 1\nproperty {}\nworld {}\nclass {}\nmessage {}\norigin {}\nbuild {}\nchoices {}\ntrace (schedule and faults, minimised)\n{}\n",
        w.id,
        w.name,
        v.class,
        one_line(&v.msg),
        origin,
        if cfg!(debug_assertions) { "assertions" } else { "shipped" },
        c.join(" "),
        trace
    )
}

pub fn in_process(w: &World, log: Vec<u64>, v: Violation, origin: &str) -> String {
    let class = v.class.clone();
    let mut test = |c: &[u64]| {
        let ctx = Ctx::replay(c.to_vec(), false);
        match execute(w, &ctx) {
            Err(v) if v.class == class => {
                let l = ctx.core().log.clone();
                Some(l)
            }
            _ => None,
        }
    };
    let min = minimise(log.clone(), 6000, Instant::now() + Duration::from_secs(25), &mut test);
    let ctx = Ctx::replay(min.clone(), true);
    let r = execute(w, &ctx);
    let t = ctx.core().trace.take().unwrap_or_default().join("\n");
    match r {
        Err(v) => file(w, &v, origin, &min, &t),
        Ok(()) => file(w, &v, origin, &log, "(not reproduced when minimised)"),
    }
}

/// As above for runs that kill the process: every attempt is a child.
pub fn isolated(w: &World, bin: &Path, dir: &Path, seed: u64, first: Violation, origin: &str) -> Option<String> {
    let hang = first.class == "hang";
    let limit = Duration::from_secs(if hang { 20 } else { 60 });
    let rec = dir.join("record");
    let input = dir.join("candidate");
    let run = |choices: &[u64], random: Option<u64>, trace: Option<&Path>| {
        std::fs::write(&input, file(w, &first, origin, choices, "")).expect("write");
        let mut c = Command::new(bin);
        c.arg("inner").arg(&input).arg("--record").arg(&rec);
        if let Some(s) = random {
            c.arg("--random").arg(s.to_string());
        }
        if let Some(t) = trace {
            c.arg("--trace").arg(t);
        }
        let r = run_child(c, limit);
        let log: Vec<u64> = std::fs::read_to_string(&rec).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
        (verdict_of(&r), log)
    };
    let (v, log) = run(&[], Some(seed), None);
    let v = v?;
    let mut last = v.clone();
    let mut test = |c: &[u64]| {
        let (r, log) = run(c, None, None);
        match r {
            Some(x) if x.class == v.class => {
                last = x;
                Some(log)
            }
            _ => None,
        }
    };
    let min = minimise(log, if hang { 8 } else { 400 }, Instant::now() + Duration::from_secs(60), &mut test);
    Some(file(w, &last, origin, &min, "(the process dies; run with `inner FILE --trace OUT` under a debugger for detail)"))
}
