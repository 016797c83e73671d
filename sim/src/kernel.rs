//! The multi-party simulator: tasks on OS threads of which exactly one holds the baton, discrete-event
//! time, and byte links with latency, stalls, bounded buffers and resets.

use crate::alloc::Unmetered;
use crate::ctx::{hash_bytes, CrashToken, Ctx, Violation, K};
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Wait {
    Ready,
    Readable(usize),
    Writable(usize),
    Accept(usize),
    Sleep,
    Done,
}

struct Task {
    name: &'static str,
    wait: Wait,
    deadline: Option<u64>,
    /// crash this task at its next stream call
    crash: bool,
}

#[derive(Default)]
struct Link {
    /// (arrival time, bytes)
    flight: VecDeque<(u64, Vec<u8>)>,
    arrived: VecDeque<u8>,
    cap: usize,
    queued: usize,
    last_arrival: u64,
    /// writer closed: end of data once drained
    closed: bool,
    reset: bool,
    /// reset strikes after this many more bytes are written
    reset_after: Option<usize>,
    /// the link goes silent after this many more bytes are written: nothing more arrives, not even the
    /// closing or reset of the other end
    silent_after: Option<usize>,
}

#[derive(Clone, Copy, Debug)]
pub struct LinkManner {
    pub frag: u8,
    pub eintr: u64,
    pub max_latency: u64,
    pub stall: u64,
}

struct Ks {
    tasks: Vec<Task>,
    links: Vec<Link>,
    /// connections offered to each acceptor: pairs of (client to server, server to client) links
    backlog: Vec<VecDeque<(usize, usize)>>,
    now: u64,
    current: usize,
    stop: bool,
    failure: Option<Violation>,
    panic: Option<Box<dyn std::any::Any + Send>>,
    live: usize,
}

pub struct Shared {
    pub ctx: Ctx,
    m: Mutex<Ks>,
    cv: Vec<Condvar>,
    done: Condvar,
}

/// Panic payload: the simulation is over, unwind quietly.
struct Halt;

#[derive(Clone)]
pub struct Kernel {
    pub sh: Arc<Shared>,
    me: usize,
}

pub type Body<'t> = Box<dyn FnOnce(Kernel) -> Result<(), Violation> + Send + 't>;

/// Run tasks to completion under the scheduler.
pub fn run<'t>(ctx: &Ctx, acceptors: usize, tasks: Vec<(&'static str, Body<'t>)>) -> Result<(), Violation> {
    let n = tasks.len();
    let sh = Arc::new(Shared {
        ctx: ctx.clone(),
        m: Mutex::new(Ks {
            tasks: tasks.iter().map(|t| Task { name: t.0, wait: Wait::Ready, deadline: None, crash: false }).collect(),
            links: vec![],
            backlog: vec![VecDeque::new(); acceptors],
            now: 0,
            current: usize::MAX,
            stop: false,
            failure: None,
            panic: None,
            live: n,
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
        done: Condvar::new(),
    });
    std::thread::scope(|scope| {
        for (i, (name, body)) in tasks.into_iter().enumerate() {
            let k = Kernel { sh: sh.clone(), me: i };
            std::thread::Builder::new()
                .name(name.to_string())
                .stack_size(64 << 20)
                .spawn_scoped(scope, move || {
                    let sh = k.sh.clone();
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        k.wait_turn();
                        body(k)
                    }));
                    let mut s = sh.lock();
                    s.tasks[i].wait = Wait::Done;
                    s.live -= 1;
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(v)) => {
                            if s.failure.is_none() {
                                s.failure = Some(v);
                            }
                            s.stop = true;
                        }
                        Err(p) => {
                            if !p.is::<Halt>() && s.panic.is_none() {
                                s.panic = Some(p);
                                s.stop = true;
                            }
                        }
                    }
                    if s.live == 0 {
                        sh.done.notify_all();
                    } else if s.stop {
                        for c in &sh.cv {
                            c.notify_all();
                        }
                    } else {
                        sh.pass(&mut s);
                    }
                })
                .expect("thread");
        }
        let mut s = sh.lock();
        sh.pass(&mut s);
        while s.live > 0 {
            s = match sh.done.wait(s) {
                Ok(s) => s,
                Err(p) => p.into_inner(),
            };
        }
    });
    let mut s = sh.lock();
    ctx.core().sim_time_us += s.now;
    if let Some(p) = s.panic.take() {
        drop(s);
        resume_unwind(p);
    }
    match s.failure.take() {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

impl Shared {
    fn lock(&self) -> MutexGuard<'_, Ks> {
        match self.m.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }

    /// Choose who runs next and wake it; advance time when nobody can run.
    fn pass(&self, s: &mut Ks) {
        let _u = Unmetered::new();
        loop {
            s.deliver();
            let mut ready = vec![];
            for (i, t) in s.tasks.iter().enumerate() {
                let ok = match t.wait {
                    Wait::Done => false,
                    Wait::Ready => true,
                    Wait::Readable(l) => {
                        let l = &s.links[l];
                        !l.arrived.is_empty() || l.reset || (l.closed && l.flight.is_empty())
                    }
                    Wait::Writable(l) => {
                        let l = &s.links[l];
                        l.queued < l.cap || l.reset
                    }
                    Wait::Accept(a) => !s.backlog[a].is_empty(),
                    Wait::Sleep => false,
                };
                let timed = t.deadline.map_or(false, |d| d <= s.now) && t.wait != Wait::Done;
                if ok || timed || (t.crash && t.wait != Wait::Done) {
                    ready.push(i);
                }
            }
            if !ready.is_empty() {
                let i = ready[self.ctx.below(ready.len())];
                if i != s.current {
                    self.ctx.count(K::TaskSwitch);
                    self.ctx.ev(60, i as u64, s.now, || format!("[t={}us] run {}", s.now, s.tasks[i].name));
                }
                s.current = i;
                self.cv[i].notify_all();
                return;
            }
            let next = s
                .tasks
                .iter()
                .filter(|t| t.wait != Wait::Done)
                .filter_map(|t| t.deadline)
                .chain(s.links.iter().filter_map(|l| l.flight.front().map(|f| f.0)))
                .filter(|t| *t > s.now)
                .min();
            match next {
                Some(t) => {
                    self.ctx.count(K::ClockJump);
                    s.now = t;
                }
                None => {
                    if s.live > 0 {
                        let who: Vec<String> = s.tasks.iter().filter(|t| t.wait != Wait::Done).map(|t| format!("{} waits {:?}", t.name, t.wait)).collect();
                        if s.failure.is_none() {
                            s.failure = Some(Violation { class: "deadlock".into(), msg: format!("nobody can proceed: {}", who.join(", ")) });
                        }
                        s.stop = true;
                        for c in &self.cv {
                            c.notify_all();
                        }
                    }
                    return;
                }
            }
        }
    }
}

impl Ks {
    fn deliver(&mut self) {
        for l in &mut self.links {
            while l.flight.front().map_or(false, |f| f.0 <= self.now) {
                let (_, b) = l.flight.pop_front().unwrap();
                l.arrived.extend(b);
            }
        }
    }
}

pub enum Woke {
    Ok,
    Timeout,
}

impl Kernel {
    fn wait_turn(&self) {
        let mut s = self.sh.lock();
        while s.current != self.me && !s.stop {
            s = match self.sh.cv[self.me].wait(s) {
                Ok(s) => s,
                Err(p) => p.into_inner(),
            };
        }
        if s.stop {
            drop(s);
            std::panic::panic_any(Halt);
        }
    }

    fn park(&self, mut s: MutexGuard<'_, Ks>, w: Wait, deadline: Option<u64>) {
        s.tasks[self.me].wait = w;
        s.tasks[self.me].deadline = deadline;
        if !matches!(w, Wait::Ready | Wait::Sleep) {
            self.sh.ctx.count(K::Blocked);
        }
        self.sh.pass(&mut s);
        drop(s);
        self.wait_turn();
        let mut s = self.sh.lock();
        s.tasks[self.me].wait = Wait::Ready;
        s.tasks[self.me].deadline = None;
        let crash = std::mem::replace(&mut s.tasks[self.me].crash, false);
        drop(s);
        if crash {
            self.sh.ctx.ev(61, self.me as u64, 0, || format!("CRASH of task {}", self.me));
            std::panic::panic_any(CrashToken);
        }
    }

    /// A scheduling point.
    pub fn yield_(&self) {
        let s = self.sh.lock();
        self.park(s, Wait::Ready, None);
    }
    pub fn now(&self) -> u64 {
        self.sh.lock().now
    }
    pub fn sleep(&self, us: u64) {
        let s = self.sh.lock();
        let d = s.now + us.max(1);
        self.park(s, Wait::Sleep, Some(d));
    }
    /// Crash another task at its next scheduling point.
    pub fn crash(&self, task: usize) {
        self.sh.ctx.count(K::NodeCrash);
        let mut s = self.sh.lock();
        if s.tasks[task].wait != Wait::Done {
            s.tasks[task].crash = true;
        }
    }
    pub fn all_done(&self, tasks: &[usize]) -> bool {
        let s = self.sh.lock();
        tasks.iter().all(|t| s.tasks[*t].wait == Wait::Done)
    }
    pub fn link(&self, cap: usize) -> usize {
        let _u = Unmetered::new();
        let mut s = self.sh.lock();
        s.links.push(Link { cap, ..Link::default() });
        s.links.len() - 1
    }
    pub fn links(&self) -> usize {
        self.sh.lock().links.len()
    }
    pub fn reset(&self, l: usize) {
        let mut s = self.sh.lock();
        let l = &mut s.links[l];
        if l.silent_after == Some(0) {
            return;
        }
        l.reset = true;
        l.flight.clear();
        l.arrived.clear();
    }
    pub fn silence_after(&self, l: usize, bytes: usize) {
        self.sh.ctx.count(K::Silence);
        self.sh.lock().links[l].silent_after = Some(bytes);
    }
    pub fn reset_after(&self, l: usize, bytes: usize) {
        self.sh.lock().links[l].reset_after = Some(bytes);
    }
    pub fn close(&self, l: usize) {
        let mut s = self.sh.lock();
        if s.links[l].silent_after != Some(0) {
            s.links[l].closed = true;
        }
    }
    pub fn connect(&self, acceptor: usize, pair: (usize, usize)) {
        let _u = Unmetered::new();
        self.sh.lock().backlog[acceptor].push_back(pair);
    }
    /// Wait for a connection until a deadline.
    pub fn accept(&self, acceptor: usize, wait_us: u64) -> Option<(usize, usize)> {
        let mut s = self.sh.lock();
        if s.backlog[acceptor].is_empty() {
            let d = s.now + wait_us;
            self.park(s, Wait::Accept(acceptor), Some(d));
            s = self.sh.lock();
        }
        s.backlog[acceptor].pop_front()
    }
    pub fn pending(&self, acceptor: usize) -> usize {
        self.sh.lock().backlog[acceptor].len()
    }
    pub fn end(&self, l: usize, manner: LinkManner, timeout_us: Option<u64>) -> End {
        End { k: self.clone(), l, manner, timeout_us, in_a_row: 0, moved: 0 }
    }
    pub fn leftover(&self, l: usize) -> usize {
        let s = self.sh.lock();
        s.links[l].arrived.len() + s.links[l].flight.iter().map(|f| f.1.len()).sum::<usize>()
    }
}

/// One task's end of a link: a reader or a writer.
pub struct End {
    k: Kernel,
    l: usize,
    manner: LinkManner,
    timeout_us: Option<u64>,
    in_a_row: u32,
    pub moved: u64,
}

impl End {
    fn amount(&self, max: usize) -> usize {
        let ctx = &self.k.sh.ctx;
        match self.manner.frag {
            0 => max,
            1 if max <= 4096 => 1,
            2 if max <= 4096 => 1 + ctx.below(max.min(4)),
            _ => max - ctx.below(max),
        }
    }
    fn interrupted(&mut self) -> bool {
        if self.manner.eintr > 0 && self.in_a_row < 4 && self.k.sh.ctx.chance(self.manner.eintr, 16) {
            self.in_a_row += 1;
            return true;
        }
        self.in_a_row = 0;
        false
    }
}

fn reset_error() -> io::Error {
    io::Error::from_raw_os_error(104)
}
fn timeout_error() -> io::Error {
    io::Error::from_raw_os_error(110)
}

impl Read for End {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _u = Unmetered::new();
        let ctx = self.k.sh.ctx.clone();
        ctx.step();
        if buf.is_empty() {
            return Ok(0);
        }
        self.k.yield_();
        if self.interrupted() {
            ctx.count(K::EintrRead);
            return Err(io::Error::from_raw_os_error(4));
        }
        let start = self.k.now();
        loop {
            let mut s = self.k.sh.lock();
            s.deliver();
            let now = s.now;
            let l = &mut s.links[self.l];
            if l.reset {
                return Err(reset_error());
            }
            if !l.arrived.is_empty() {
                let max = buf.len().min(l.arrived.len());
                drop(s);
                let n = self.amount(max);
                let mut s = self.k.sh.lock();
                let l = &mut s.links[self.l];
                for b in buf[..n].iter_mut() {
                    *b = l.arrived.pop_front().unwrap();
                }
                l.queued -= n;
                if n < buf.len() {
                    ctx.count(K::ShortRead);
                }
                self.moved += n as u64;
                ctx.ev(62, (self.l as u64) << 32 | n as u64, now, || format!("  link {} read {} of {}", self.l, n, buf.len()));
                return Ok(n);
            }
            if l.closed && l.flight.is_empty() {
                ctx.ev(63, self.l as u64, now, || format!("  link {} end of data", self.l));
                return Ok(0);
            }
            let d = self.timeout_us.map(|t| start + t);
            if d.map_or(false, |d| d <= now) {
                ctx.count(K::LinkTimeout);
                ctx.ev(64, self.l as u64, now, || format!("  link {} read TIMEOUT", self.l));
                return Err(timeout_error());
            }
            self.k.park(s, Wait::Readable(self.l), d);
        }
    }
}

impl Write for End {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _u = Unmetered::new();
        let ctx = self.k.sh.ctx.clone();
        ctx.step();
        if buf.is_empty() {
            return Ok(0);
        }
        self.k.yield_();
        if self.interrupted() {
            ctx.count(K::EintrWrite);
            return Err(io::Error::from_raw_os_error(4));
        }
        let start = self.k.now();
        loop {
            let s = self.k.sh.lock();
            let now = s.now;
            let l = &s.links[self.l];
            if l.reset {
                return Err(reset_error());
            }
            if l.queued < l.cap {
                let max = buf.len().min(l.cap - l.queued);
                drop(s);
                let mut n = self.amount(max);
                let mut delay = if self.manner.max_latency > 0 { ctx.draw(self.manner.max_latency) } else { 0 };
                if self.manner.stall > 0 && ctx.chance(1, 12) {
                    ctx.count(K::Stall);
                    delay += self.manner.stall;
                }
                if delay > 0 {
                    ctx.count(K::Latency);
                }
                let mut s = self.k.sh.lock();
                let l = &mut s.links[self.l];
                let was_silent = l.silent_after == Some(0);
                if let Some(r) = l.reset_after {
                    if r < n {
                        n = r;
                    }
                    l.reset_after = Some(r - n);
                    if r == 0 || n == 0 {
                        l.reset = true;
                        l.flight.clear();
                        l.arrived.clear();
                        ctx.count(K::LinkReset);
                        ctx.ev(65, self.l as u64, now, || format!("  link {} RESET", self.l));
                        return Err(reset_error());
                    }
                }
                if let Some(r) = l.silent_after {
                    if r > 0 {
                        n = n.min(r);
                        l.silent_after = Some(r - n);
                    }
                }
                if n < buf.len() {
                    ctx.count(K::ShortWrite);
                }
                l.queued += n;
                if l.silent_after == Some(0) && was_silent {
                    // taken, and never seen again
                    self.moved += n as u64;
                    ctx.ev(67, (self.l as u64) << 32 | n as u64, now, || format!("  link {} swallowed {} of {}", self.l, n, buf.len()));
                    return Ok(n);
                }
                let at = (now + delay).max(l.last_arrival);
                l.last_arrival = at;
                l.flight.push_back((at, buf[..n].to_vec()));
                self.moved += n as u64;
                ctx.ev(66, (self.l as u64) << 32 | n as u64, hash_bytes(&buf[..n]) ^ at, || format!("  link {} wrote {} of {}, arriving at t={}us", self.l, n, buf.len(), at));
                return Ok(n);
            }
            let d = self.timeout_us.map(|t| start + t);
            if d.map_or(false, |d| d <= now) {
                ctx.count(K::LinkTimeout);
                return Err(timeout_error());
            }
            self.k.park(s, Wait::Writable(self.l), d);
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
